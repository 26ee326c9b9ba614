"""C05: chains of select / deselect against a set model."""
import fnmatch
import numpy as np
from ..util import *

ID = 'C05'
RULE = ("random runs x chains of 1-5 select/deselect calls (glob pair, list of pairs, dictionary with key sets or empty "
        "sets; patterns with *, ?, [..], [!..]; also dropped, unknown and unmatched names); distinct by the sequence of "
        "(operation, form, outcome size)")
ASSUME = ["a list of patterns of which only some match may be rejected or honoured",
          "deselecting something absent may be rejected or do nothing",
          "a source left without any selected key may stay listed or vanish"]
cases = std_cases({'quick': 1200, 'thorough': 20000})
MINIMUM = {'select': 600, 'deselect': 300, 'rejected': 200, 'narrowing': 300, 'reads': 600}


def mutate_glob(rng, name):
    c = rng.random()
    if c < .15:
        return '*'
    if c < .35:
        return name
    s = name
    for _ in range(rng.randint(1, 2)):
        i = rng.randrange(len(s)) if s else 0
        m = rng.choice(['?', '*', '[]', '[!]', 'cut', 'pre', 'suf', 'case'])
        if not s:
            break
        ch = s[i]
        if m == '?':
            s = s[:i] + '?' + s[i + 1:]
        elif m == '*':
            j = rng.randint(i, len(s))
            s = s[:i] + '*' + s[j:]
        elif m == '[]' and ch not in '[]!*?^-':
            s = s[:i] + '[%sx]' % ch + s[i + 1:]
        elif m == '[!]' and ch not in '[]!*?^-':
            s = s[:i] + '[!%s]' % rng.choice('zq' + ch) + s[i + 1:]
        elif m == 'pre':
            s = '*' + s[i:]
        elif m == 'suf':
            s = s[:i + 1] + '*'
        elif m == 'case' and rng.random() < .3:
            s = s[:i] + ch.swapcase() + s[i + 1:]
    return s


def key_glob(rng, r, src):
    keys = sorted(r.sources[src].keys)
    k = rng.choice(keys)
    if r.sources[src].kind == 'C' and k.endswith('.value') and rng.random() < .5:
        k = k[:-6]
    if rng.random() < .1:      # hardly anything but wildcards
        return rng.choice(['*.*', '**', '*.', '.*', '?*', '*?', '*.*.*', '*.?*', '*.value', '*[!.]*', '?'])
    return mutate_glob(rng, k)


def random_expr(rng, r, sel):
    """(form, argument tuple, python description of pairs or dict)"""
    every = sorted(r.sources)
    here = sorted(sel)
    pool = here if rng.random() < .85 else every
    form = rng.choice(['pair', 'list', 'dict', 'one'])
    if form == 'dict':
        out = {}
        for s in rng.sample(pool, rng.randint(1, len(pool))):
            ks = sorted(sel.get(s) or r.sources[s].keys)
            allk = sorted(r.sources[s].keys)
            c = rng.random()
            out[s] = set() if c < .35 else set(rng.sample(ks, rng.randint(1, len(ks)))) if c < .8 else \
                set(rng.sample(allk, rng.randint(1, len(allk))))
        if rng.random() < .1:
            out[rng.choice(['NO/SUCH/SOURCE', here[0] + 'x', here[0].lower()])] = set()
        return form, (out,), out
    n = 1 if form in ('pair', 'one') else rng.randint(1, 3)
    pairs = []
    for _ in range(n):
        s = rng.choice(pool)
        pairs.append((mutate_glob(rng, s), key_glob(rng, r, s) if rng.random() < .7 else '*'))
    if form == 'pair':
        return form, pairs[0], pairs
    if form == 'one':
        return form, (pairs[0][0],), [(pairs[0][0], '*')]
    return form, (pairs,), pairs


def run_case(case, ctx):
    from karabo_data import SourceNameError, PropertyNameError
    rng = rng_for(ID, *case)
    r, d = make_run(rng, ctx, max_trains=5, empty_file=0.03)
    dc = open_run(r, d, rng)
    ctx.sample(r.describe())
    cur = {s: set(v.keys) for s, v in r.sources.items()}
    trains = r.trains
    trace, hist = [], []
    if rng.random() < .2:
        trains = random_subset(rng, trains)
        dc = select_trains(rng, dc, trains)
        cur = {s: k for s, k in cur.items() if source_visible(r, s, trains)}
    for step in range(rng.randint(1, 5)):
        if not any(cur.values()):
            break
        op = rng.choice(['select', 'select', 'deselect'])
        form, args, desc = random_expr(rng, r, cur)
        view = model.View(r, trains, cur)
        must_reject = may_reject = False
        if form == 'dict':
            if any(s not in cur for s in desc):
                must_reject = True
            m = {s: (set(k) & cur.get(s, set()) if k else set(cur.get(s, ()))) for s, k in desc.items()}
            may_reject = any(k - cur.get(s, set()) or not cur.get(s) for s, k in desc.items())
        else:
            per = [view.glob([p]) for p in desc]
            may_reject = not all(per)
            must_reject = not any(per) and not any(
                not k and any(fnmatch.fnmatchcase(s, sg) for sg, _ in desc) for s, k in cur.items())
            may_reject = may_reject or not any(per)
            m = view.glob(desc)
        if op == 'select':
            new = m
            if any(len(v) < len(r.sources[s].keys) for s, v in cur.items()):
                ctx.count('narrowing')
        else:
            may_reject = may_reject or must_reject
            must_reject = must_reject and form == 'dict'
            new = {s: k - m.get(s, set()) for s, k in cur.items()}
        if not all(cur.values()):
            ctx.count('emptied_before')
        what = '%s after %r: %s%r' % (op, hist, op, args)
        try:
            res = getattr(dc, op)(*args)
        except (SourceNameError, PropertyNameError, ValueError) as e:
            ctx.count('rejected')
            ctx.check(must_reject or may_reject, 'wrongly-rejected', '%s: %r' % (what, e), run=r.describe())
            trace.append((op, form, 'rejected'))
            continue
        ctx.count(op)
        if not ctx.check(not must_reject, 'not-rejected', '%s gave sources %r' % (what, sorted(res.all_sources)), run=r.describe()):
            break
        got = {s: set(res.keys_for_source(s)) for s in res.all_sources}
        # a source emptied before may still be listed
        for s in got:
            if s in cur and not cur[s]:
                new.setdefault(s, set())
        ok = {s: k for s, k in got.items() if k} == {s: k for s, k in new.items() if k} and \
            set(got) <= set(new)
        if not ctx.check(ok, op, '%s gave %r instead of %r' % (what, got, new), run=r.describe()):
            break
        ctx.check(res.control_sources | res.instrument_sources == set(res.all_sources) and
                  all((r.sources[s].kind == 'C') == (s in res.control_sources) for s in res.all_sources),
                  'kinds', '%s: sources classified wrongly' % what)
        ctx.check([int(t) for t in res.train_ids] == trains, 'trains', '%s changed trains to %r' % (what, res.train_ids))
        after = {s: set(dc.keys_for_source(s)) for s in dc.all_sources}
        ctx.check({s: k for s, k in after.items() if k} == {s: k for s, k in cur.items() if k}, 'original-changed', '%s changed the collection selected from' % what)
        for s in sorted(new):
            for k in sorted(new[s])[:3]:
                if rng.random() < .4:
                    exp, _ = model.View(r, trains).array(s, k)
                    ctx.count('reads')
                    ctx.check(model.same(res.get_array(s, k).values, exp), 'data', '%s: data of %s %s changed' % (what, s, k))
        for s in sorted(r.sources):
            gone = sorted(set(r.sources[s].keys) - new.get(s, set()))
            if gone and rng.random() < .4:
                k = rng.choice(gone)
                try:
                    res.get_array(s, k)
                except (SourceNameError, PropertyNameError):
                    ctx.count('unselected_refused')
                else:
                    ctx.violation('unselected-read', '%s: unselected %s %s could be read' % (what, s, k))
        trace.append((op, form, tuple(sorted((s, len(k)) for s, k in new.items()))))
        hist.append((op, args))
        dc, cur = res, new
    ctx.seen(tuple(trace), tuple(sorted(r.sources)))
