"""C02: trains(), train_from_id, train_from_index against the ground truth."""
import numpy as np
from ..util import *

ID = 'C02'
RULE = ("random runs x source/key selections x train ranges; trains read by iteration (with and without require_all), "
        "by ID and by position in random order on shared collections; a train is distinct by its set of "
        "(source, file position, counts) situation")
ASSUME = ["the 'metadata' entry of each source names the source and the train ID",
          "a source none of whose files overlaps the selected trains may be absent from the result"]
cases = std_cases({'quick': 640, 'thorough': 10000})
MINIMUM = {'trains_iterated': 1000, 'lookups': 1000, 'incomplete_skipped': 50, 'omitted_keys': 300}


def same_value(got, exp, dtype):
    if dtype == 'str':
        if isinstance(exp, np.ndarray):
            return isinstance(got, np.ndarray) and got.shape == exp.shape and got.tolist() == exp.tolist()
        return got == exp
    return model.same(got, exp)


def compare_train(ctx, view, tid, data, what, strict_sources=True):
    r = view.run
    exp = view.train(tid)
    for s in exp:
        if s not in data:
            ctx.check(not strict_sources or not source_visible(r, s, view.trains), 'source-missing',
                      '%s train %d: source %s absent' % (what, tid, s), run=r.describe())
    for s, d in data.items():
        if not ctx.check(s in exp, 'source-extra', '%s train %d: source %s was not selected' % (what, tid, s)):
            continue
        md = d.get('metadata')
        ctx.check(isinstance(md, dict) and md.get('source') == s and md.get('timestamp.tid') == tid,
                  'metadata', '%s train %d: metadata %r for %s' % (what, tid, md, s))
        keys = set(d) - {'metadata'}
        if not ctx.check(keys == set(exp[s]), 'keys', '%s train %d %s: keys %r instead of %r' % (
                what, tid, s, sorted(keys), sorted(exp[s])), run=r.describe()):
            continue
        ctx.count('omitted_keys', len(view.sel[s]) - len(keys))
        for k in keys:
            ok = same_value(d[k], exp[s][k], r.sources[s].keys[k].dtype)
            ctx.check(ok, 'values', '%s train %d %s %s: got %r expected %r' % (
                what, tid, s, k, d[k], exp[s][k]), run=r.describe())
            ctx.count('values')
    pos = []
    for s in sorted(exp):
        f = r.file_of(s, tid)
        pos.append((r.sources[s].kind, f and f.trains.index(tid),
                    tuple(sorted((g, c.get(tid, 0)) for g, c in r.sources[s].counts.items()))))
    ctx.seen(tuple(pos))


def random_selection(rng, view):
    """(argument for select/devices, resulting model selection)"""
    srcs = sorted(view.sel)
    if rng.random() < .5:
        sel = {}
        for s in rng.sample(srcs, rng.randint(1, len(srcs))):
            ks = sorted(view.sel[s])
            sel[s] = set() if rng.random() < .3 else set(rng.sample(ks, rng.randint(1, len(ks))))
        return sel, {s: (k or set(view.sel[s])) for s, k in sel.items()}
    pairs = []
    for s in rng.sample(srcs, rng.randint(1, len(srcs))):
        k = rng.choice(sorted(view.sel[s]))
        pairs.append((s, rng.choice(['*', k, k.partition('.')[0] + '*', '*' + k[-3:]])))
    return pairs, view.glob(pairs)


def run_case(case, ctx):
    from karabo_data import by_id, by_index
    rng = rng_for(ID, *case)
    r, d = make_run(rng, ctx, ctrl_holes=rng.random() < .2)
    dc = open_run(r, d, rng)
    ctx.sample(r.describe())
    full = model.View(r)
    for _ in range(rng.randint(1, 3)):
        trains = random_subset(rng, r.trains)
        if not trains:
            raise Skip
        kw = {}
        base, view = dc, full
        if rng.random() < .6:
            arg, sel = random_selection(rng, full)
            view = model.View(r, sel=sel)
            names = set(arg) if isinstance(arg, dict) else {a for a, _ in arg}
            if rng.random() < .5 or not all(source_visible(r, s, trains) for s in names):
                base = dc.select(arg)
            else:
                kw['devices'] = arg
        view = model.View(r, trains, view.sel)
        if trains != r.trains:
            i, j = r.trains.index(trains[0]), r.trains.index(trains[-1])
            c = rng.random()
            if c < .4:
                base = select_trains(rng, base, trains)
            elif c < .7 or r.trains[i:j + 1] != trains:
                kw['train_range'] = rng.choice([by_id[trains], by_index[[r.trains.index(t) for t in trains]]])
            else:
                kw['train_range'] = rng.choice([by_id[trains[0]:trains[-1] + 1], by_index[i:j + 1]])
        req = rng.random() < .5
        exp_tids = trains
        if req:
            kw['require_all'] = True
            exp_tids = [t for t in trains if view.complete(t)]
            vis = {s: k for s, k in view.sel.items() if source_visible(r, s, trains)}
            alt = [t for t in trains if model.View(r, trains, vis).complete(t)]
            ctx.count('incomplete_skipped', len(trains) - len(exp_tids))
        elif rng.random() < .3:
            kw['require_all'] = False
        what = 'trains(%r)' % (kw,)
        got = []
        its = [iter(base.trains(**kw))]
        if rng.random() < .2:
            next(iter(base.trains(**kw)), None)
        for tid, data in its[0]:
            got.append(tid)
            ctx.count('trains_iterated')
            if tid in r.trains:
                compare_train(ctx, view, tid, data, what)
            if len(got) > len(trains) + 2:
                break
        ctx.check(got == exp_tids or (req and got == alt), 'iteration',
                  '%s: trains %r instead of %r' % (what, got, exp_tids), run=r.describe())
        # look up in random order, revisiting
        for _ in range(min(8, 2 * len(trains))):
            t = rng.choice(trains)
            k2 = {'devices': kw['devices']} if 'devices' in kw else {}
            tids_here = [int(x) for x in base.train_ids]
            vw = model.View(r, tids_here, view.sel)
            if rng.random() < .5:
                tid, data = base.train_from_id(t, **k2)
                w = 'train_from_id'
            else:
                i = tids_here.index(t)
                if rng.random() < .3:
                    i -= len(tids_here)
                tid, data = base.train_from_index(i, **k2)
                w = 'train_from_index(%d)' % i
            ctx.count('lookups')
            ctx.check(int(tid) == t, 'lookup-id', '%s returned train %r for %r' % (w, tid, t))
            compare_train(ctx, vw, t, data, w)
        absent = rng.choice([r.trains[-1] + 1, r.trains[0] - 1] + [t + 1 for t in r.trains if t + 1 not in r.trains]
                            + [t for t in r.trains if t not in [int(x) for x in base.train_ids]])
        try:
            base.train_from_id(absent)
        except KeyError:
            ctx.count('absent_rejected')
        else:
            ctx.violation('absent-train', 'train_from_id(%d) returned data for a train not in the collection' % absent)
