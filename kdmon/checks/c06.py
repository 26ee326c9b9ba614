"""C06: chains of select_trains against a list model."""
import numpy as np
from ..util import *

ID = 'C06'
RULE = ("random runs with gaps x chains of 1-3 train selections (ID slices with ends on trains, in gaps, outside, open, "
        "stepped; ID lists with absent IDs; positional slices with negative and stepped ends; lists of positions); "
        "distinct by expression form, position of the ends relative to the trains and result pattern")
ASSUME = ["a request overlapping no train may be rejected or give an empty collection",
          "ID slices use positive steps"]
cases = std_cases({'quick': 1400, 'thorough': 24000})
MINIMUM = {'selections': 1500, 'gap_ends': 150, 'of_selected': 400, 'reads': 1500, 'no_overlap': 60, 'of_empty': 100}


def bound(rng, cur):
    """(value, class) for an ID slice end"""
    gaps = [t for a, b in zip(cur, cur[1:]) for t in range(a + 1, min(b, a + 6)) if t != b]
    c = rng.random()
    if c < .15:
        return None, 'open'
    if c < .5:
        return rng.choice(cur), 'on'
    if c < .75 and gaps:
        return rng.choice(gaps), 'gap'
    if c < .85:
        return cur[0] - rng.randint(1, 9), 'before'
    if c < .95:
        return cur[-1] + rng.randint(1, 9), 'after'
    return rng.choice([0, 1 << 63]), 'far'


def run_case(case, ctx):
    from karabo_data import by_id, by_index
    rng = rng_for(ID, *case)
    r, d = make_run(rng, ctx, max_trains=rng.choice([4, 12]), min_trains=2, empty_file=0.05,
                    gaps=rng.random() < .85)
    dc = open_run(r, d, rng)
    ctx.sample(r.describe())
    cur = list(r.trains)
    hist = []
    sel = None
    if rng.random() < .4:        # of a collection with some of the data
        sel = {}
        if rng.random() < .5:
            for s, k in random_subset(rng, fields(r)):
                sel.setdefault(s, set()).add(k)
            dc = dc.select(sel)
        else:                    # whole sources
            for s in random_subset(rng, sorted(r.sources)):
                sel[s] = set(r.sources[s].keys)
            if not sel:
                raise Skip
            ctx.count('of_whole_sources')
            dc = dc.select({s: set() for s in sel}) if rng.random() < .5 else dc.select([(s, '*') for s in sel])
        ctx.count('of_selected')
    for step in range(rng.randint(1, 3)):
        n = len(cur)
        ref = cur or r.trains       # of an empty collection too
        ctx.count('of_empty', not cur)
        form = rng.choice(['idslice', 'idslice', 'idlist', 'ixslice', 'ixlist'])
        cls = ''
        must_fail = False
        if form == 'idslice':
            (a, ca), (b, cb) = bound(rng, ref), bound(rng, ref)
            if a is not None and b is not None and a > b and rng.random() < .8:
                a, ca, b, cb = b, cb, a, ca
            st = rng.choice([None, None, None, 1, 2, 3])
            np_ = rng.random() < .2
            ea, eb = (np.uint64(x) if np_ and x is not None else x for x in (a, b))
            expr = by_id[ea:eb:st] if st is not None else by_id[ea:eb]
            new = [t for t in cur if (a is None or t >= a) and (b is None or t < b)][::st or 1]
            cls = (ca, cb, st)
            ctx.count('gap_ends', 'gap' in (ca, cb))
        elif form == 'idlist':
            ids = [rng.choice(ref) for _ in range(rng.randint(0, 4))]
            ids += [rng.choice([ref[0] - 1, ref[-1] + 1, rng.choice(ref) + 1]) for _ in range(rng.randint(0, 2))]
            rng.shuffle(ids)
            expr = by_id[np.array(ids, 'u8') if rng.random() < .4 and ids else ids]
            new = [t for t in cur if t in ids]
            cls = len(ids)
        elif form == 'ixslice':
            def b_(): return rng.choice([None, rng.randint(-n - 2, n + 2), rng.randint(0, n)])
            sl = slice(b_(), b_(), rng.choice([None, None, 1, 2, -1, -2]))
            expr = by_index[sl]
            new = sorted(cur[sl])
            cls = (sl.start, sl.stop, sl.step)
        else:
            ix = [rng.randint(-n, n - 1) for _ in range(rng.randint(0, 4))] if n else []
            if rng.random() < .1:
                ix.append(n + rng.randint(0, 3))
                must_fail = True
            expr = by_index[np.array(ix, int) if rng.random() < .4 else ix]
            new = [] if must_fail else sorted({cur[i] for i in ix})
            cls = tuple(ix)
        what = '%r of trains %r' % (expr, cur)
        try:
            res = dc.select_trains(expr)
        except (ValueError, IndexError) as e:
            # (documented for train IDs; a position which does not exist is an IndexError, as usual)
            ctx.check(isinstance(e, ValueError) or form == 'ixlist', 'error-type', '%s: %r instead of a ValueError' % (what, e), run=r.describe())
            if ctx.check(not new, 'wrongly-rejected', '%s: %r' % (what, e), run=r.describe()):
                ctx.count('no_overlap')
            continue
        ctx.count('selections')
        got = [int(t) for t in res.train_ids]
        if not new:
            ctx.count('no_overlap')
        if not ctx.check(got == new, form, '%s gave %r instead of %r' % (what, got, new), run=r.describe()):
            break
        ctx.check([int(t) for t in dc.train_ids] == cur, 'original-changed', '%s changed the collection it was applied to' % what)
        ctx.seen(form, cls, tuple(t in new for t in cur))
        it = [t for t, _ in res.trains()]
        ctx.check(it == new, 'iteration', '%s: trains() yields %r instead of %r' % (what, it, new))
        fl = fields(r)
        if sel is not None:
            ctx.check(set(res.all_sources) <= set(sel), 'other-sources', '%s: sources %r, of which only %r were selected before' % (
                what, sorted(res.all_sources), sorted(sel)))
            for s in sorted(sel):
                if s in res.all_sources:
                    ks = set(res.keys_for_source(s))
                    ctx.check(ks == sel[s], 'other-keys', '%s: keys %r of %s, where %r were selected before' % (what, sorted(ks), s, sorted(sel[s])))
            fl = [(s, k) for s, k in fl if k in sel.get(s, ())]
        rng.shuffle(fl)
        view = model.View(r, new)
        for s, k in fl[:4]:
            if not new or not source_visible(r, s, new):
                if s in res.all_sources:
                    a = res.get_array(s, k)
                    ctx.check(len(a) == 0, 'data-for-none', '%s: %d entries of %s %s' % (what, len(a), s, k))
                continue
            exp, tids = view.array(s, k)
            a = res.get_array(s, k)
            ctx.count('reads')
            ctx.check(model.same(a.values, exp) and (not len(tids) or a.coords['trainId'].values.tolist() == tids.tolist()),
                      'data', '%s: %s %s read back wrong' % (what, s, k), run=r.describe())
            c = res.get_data_counts(s, k)
            ctx.check({int(t): int(x) for t, x in c.items()} == view.counts(s, k), 'counts', '%s: counts of %s %s wrong' % (what, s, k))
        hist.append(repr(expr))
        dc, cur = res, new
