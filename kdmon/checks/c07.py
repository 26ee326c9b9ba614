"""C07: unions of collections against set algebra, and conflicting files."""
import os, shutil
import numpy as np
from ..util import *

ID = 'C07'
RULE = ("2-4 operands made from random runs by opening single files, sub-directories or the run, then selecting sources, "
        "keys and trains; joined in random order, grouping and with repetitions; or files made to conflict in one or "
        "more trains of a source; distinct by the operands' sources, keys and trains")
ASSUME = ["entries of trains in the union which no operand offered for that field may be absent or correct",
          "a conflict in a source no operand selects may be rejected or ignored"]
N = {'quick': 900, 'thorough': 16000}
MINIMUM = {'unions': 500, 'reads': 1500, 'conflicts': 150, 'key_merges': 60, 'repeats': 60}


def cases(tier, seed):
    return [(seed, i) for i in range(N[tier])]


def run_case(case, ctx):
    rng = rng_for(ID, *case)
    if rng.random() < .3:
        return conflict(rng, ctx)
    return algebra(rng, ctx)


def operand(rng, r, dirs, ctx):
    """(collection, {source: keys}, trains)"""
    from karabo_data import RunDirectory, H5File
    from .c02 import random_selection
    which = rng.choice(dirs + [None])
    files = r.files
    if which is None:
        dd = rng.choice(dirs)
        f = rng.choice(dd[1])
        dc = H5File(os.path.join(dd[0], f.name))
        files = [f]
    else:
        dc, files = RunDirectory(which[0]), which[1]
    srcs = sorted({s for f in files for s in f.sources})
    trains = sorted({t for f in files for t in f.trains})
    full = sel = {s: set(r.sources[s].keys) for s in srcs}
    v = model.View(r, trains, sel)
    if rng.random() < .5:
        arg, sel = random_selection(rng, v)
        dc = dc.select(arg)
        full = sel
    if rng.random() < .3 and len(sel) > 1:
        # drop some or all keys of a source
        s = rng.choice(sorted(s for s in sel))
        ks = set(sel[s]) if rng.random() < .6 else set(rng.sample(sorted(sel[s]), rng.randint(1, len(sel[s]))))
        dc = dc.deselect([(s, k) for k in sorted(ks)])
        full = sel = {**sel, s: sel[s] - ks}
        if not sel[s]:
            ctx.count('emptied')
    if trains and rng.random() < .5:
        ts = random_subset(rng, trains)
        dc = select_trains(rng, dc, ts)
        vis = {s for f in files if set(f.trains) & set(ts) for s in f.sources}
        sel = {s: k for s, k in sel.items() if s in vis}
        trains = ts
    avail = {s: {t for f in files if s in f.sources for t in f.trains} & set(trains) for s in sel}
    return dc, sel, trains, full, avail


def algebra(rng, ctx):
    r, d = make_run(rng, ctx, max_trains=8, n_agg=rng.choice([2, 3]), empty_file=0.05)
    ctx.sample(r.describe())
    # spread the files over one or two directories
    dirs = [(d, list(r.files))]
    if len(r.files) > 1 and rng.random() < .5:
        d2 = second_dir(rng, ctx, d)
        fs = rng.sample(r.files, rng.randint(1, len(r.files) - 1))
        for f in fs:
            shutil.move(os.path.join(d, f.name), os.path.join(d2, f.name))
        rest = [f for f in r.files if f not in fs]
        dirs = [(d, rest), (d2, fs)]
        if rng.random() < .6:
            # the same file names in both directories
            for f in fs:
                old = f.name
                free = [x.name for x in sorted(rest, key=lambda x: x.trains != f.trains)
                        if not os.path.exists(os.path.join(d2, x.name))]
                if free:
                    f.name = free[0]
                    os.rename(os.path.join(d2, old), os.path.join(d2, f.name))
            ctx.count('same_names')
    ops = [operand(rng, r, dirs, ctx) for _ in range(rng.randint(2, 4))]
    before = [(set(o[0].all_sources), {s: set(o[0].keys_for_source(s)) for s in o[0].all_sources},
               [int(t) for t in o[0].train_ids]) for o in ops]
    order = list(range(len(ops)))
    rng.shuffle(order)
    if rng.random() < .3:
        order.append(rng.choice(order))
        ctx.count('repeats')
    form = rng.choice(['flat', 'left', 'right', 'tree'])
    xs = [ops[i][0] for i in order]
    if form == 'flat':
        u = xs[0].union(*xs[1:])
    elif form == 'left':
        u = xs[0]
        for x in xs[1:]:
            u = u.union(x)
    elif form == 'right':
        u = xs[-1]
        for x in reversed(xs[:-1]):
            u = x.union(u)
    else:
        h = len(xs) // 2
        a = xs[0].union(*xs[1:h]) if h > 1 else xs[0]
        b = xs[h].union(*xs[h + 1:])
        u = a.union(b)
    ctx.count('unions')
    sel = {}
    for o in ops:
        for s, k in o[1].items():
            if s in sel and sel[s] != set(k):
                ctx.count('key_merges')
            sel.setdefault(s, set()).update(k)
    trains = sorted({t for o in ops for t in o[2]})
    what = 'union (%s) of %r' % (form, [(sorted(o[1]), o[2]) for o in ops])
    ctx.seen(tuple(sorted((tuple(sorted((s, tuple(sorted(k))) for s, k in o[1].items())), tuple(o[2])) for o in ops)))
    got = {s: set(u.keys_for_source(s)) for s in u.all_sources}
    # sources whose files were all dropped by train selection are not offered by the operand
    # (but may come back with another operand's files)
    may = {}
    for o in ops:
        for s, k in o[3].items():
            may.setdefault(s, set()).update(k)
    ok = ctx.check(all(s in got and sel[s] <= got[s] for s in sel) and
                   all(s in may and got[s] <= may[s] for s in got), 'sources-keys', '%s offers %r instead of %r' % (what, got, sel), run=r.describe())
    ok &= ctx.check([int(t) for t in u.train_ids] == trains, 'trains', '%s has trains %r instead of %r' % (
        what, u.train_ids, trains), run=r.describe())
    ctx.check(all((r.sources[s].kind == 'C') == (s in u.control_sources) and
                  (r.sources[s].kind == 'I') == (s in u.instrument_sources) for s in u.all_sources), 'kinds', what)
    for o, b in zip(ops, before):
        ctx.check(b == (set(o[0].all_sources), {s: set(o[0].keys_for_source(s)) for s in o[0].all_sources},
                        [int(t) for t in o[0].train_ids]), 'operand-changed', what)
    if not ok:
        return
    for s in sorted(sel):
        for k in sorted(sel[s]):
            if rng.random() > .5:
                continue
            need = {t for o in ops if k in o[1].get(s, ()) for t in o[4][s]}
            a = u.get_array(s, k)
            ctx.count('reads')
            gt = [int(t) for t in a.coords['trainId'].values] if 'trainId' in a.coords else []
            stored = set(r.sources[s].data[k])
            tset = sorted((set(gt) | need) & set(trains) & stored)
            exp, et = model.View(r, tset).array(s, k)
            ctx.check(gt == et.tolist() and model.same(a.values, exp), 'data',
                      '%s: %s %s has trains %r, expected %r' % (what, s, k, gt, et), run=r.describe())
    if trains and rng.random() < .3:
        t = rng.choice(trains)
        tid, data = u.train_from_id(t)
        exp = model.View(r, trains, sel).train(t)
        for s, dd in exp.items():
            holders = [o for o in ops if t in o[2] and s in o[1]]
            for k, v in dd.items():
                have = data.get(s, {})
                if any(k in o[1][s] and t in o[4][s] for o in holders):
                    ctx.check(k in have, 'train-missing', '%s: train %d lacks %s %s' % (what, t, s, k))
                if k in have and r.sources[s].keys[k].dtype != 'str':
                    ctx.check(model.same(have[k], v), 'train-data', '%s: train %d %s %s: %r instead of %r' % (what, t, s, k, have[k], v))
        ctx.count('train_reads')


def conflict(rng, ctx):
    """Some file is present twice, with other trains around the shared ones"""
    from karabo_data import RunDirectory, H5File
    r, d = make_run(rng, ctx, max_trains=6, min_trains=2, empty_file=0)
    f = rng.choice([f for f in r.files if f.trains])
    src = rng.choice(f.sources)
    share = rng.sample(f.trains, rng.choice([1, 1, min(2, len(f.trains)), len(f.trains)]))
    extra = [t for t in range(max(r.trains) + 1, max(r.trains) + 1 + rng.randint(0, 3))]
    early = [t for t in range(min(r.trains) - rng.randint(0, 2), min(r.trains))]
    r2 = gen.Run()
    s = (gen.ctrl_source if r.sources[src].kind == 'C' else gen.inst_source)(rng, src)
    r2.sources[src] = s
    ts = sorted(set(share) | set(extra) | set(early))
    gen.fill_source(rng, s, ts)
    f2 = gen.FileSpec('RAW-R0001-DA%02d-S%05d.h5' % (rng.choice([int(f.name.split('-')[2][2:]), 7]), 77), ts, [src],
                      f.version, f.index)
    r2.files.append(f2)
    mode = rng.choice(['dir', 'union', 'files', 'selected', 'trains'])
    ctx.seen('conflict', mode, len(share), len(extra), len(early), f.trains.index(share[0]), len(f.trains))
    ctx.count('conflicts')
    try:
        if mode == 'dir':
            r2.write(d)
            u = RunDirectory(d)
        else:
            d2 = second_dir(rng, ctx, d)
            r2.write(d2)
            a, b = RunDirectory(d), rng.choice([RunDirectory(d2), H5File(os.path.join(d2, f2.name))])
            if mode == 'selected':
                a = a.select(src, '*')
            elif mode == 'trains':
                a = a.select_trains(__import__('karabo_data').by_id[share])
            elif mode == 'files':
                a = H5File(os.path.join(d, f.name))
            u = rng.choice([lambda: a.union(b), lambda: b.union(a), lambda: b.union(a, b)])()
    except ValueError as e:
        ctx.check(src in str(e), 'conflict-unnamed', 'conflict in %s reported as %s' % (src, e))
        # and without the shared trains it is no conflict
        return
    ctx.violation('conflict-hidden', '%s: two files hold %s for trains %r; no error, result has trains %r' % (
        mode, src, share, u.train_ids), f1=f.trains, f2=ts)
