"""C13: combined detector arrays against the cells they have to hold."""
import numpy as np
from ..util import *
from .. import det

ID = 'C13'
RULE = ("random AGIPD/LPD/DSSC runs (1-5 modules, each with its own train coverage, zero counts, sequence splits; raw or corrected; "
        "pulse IDs constant or varying per train) x module subset x min_modules x train selection x key x pulse selection; every cell "
        "of the result compared; distinct by (coverage pattern, key, kind of pulse selection)")
ASSUME = ["pulse IDs differ within a train and are the same in all modules, as the data acquisition writes them"]
cases = std_cases({'quick': 320, 'thorough': 6000})
MINIMUM = {'arrays': 900, 'cells': 4000, 'gap_cells': 2000, 'rejected': 100, 'pulse_selected': 300}


def make(rng, ctx, **kw):
    r = det.gen_det_run(rng, **kw)
    d = ctx.dir('run')
    r.write(d)
    dc = open_run(r, d, rng)
    return r, dc


def component(rng, r, dc, subset=True):
    """Random detector object; returns (object, {module: source}, trains) or None if there is nothing to combine"""
    import karabo_data.components as kc
    mods = det.modules_of(r)
    kw = {}
    if rng.random() < .4:
        keep = random_subset(rng, sorted(mods))
        kw['modules'] = rng.choice([list, set, tuple])(keep + rng.choice([[], [rng.randrange(16)]]) if keep else keep)
        mods = {m: s for m, s in mods.items() if m in kw['modules']}
    within = None
    if rng.random() < .5:
        within = random_subset(rng, r.trains)
        dc = select_trains(rng, dc, within)
        mods = {m: s for m, s in mods.items() if source_visible(r, s, within)}
        if not mods:
            return None
    minm = 1
    if rng.random() < .4:
        minm = rng.randint(1, len(mods))
        kw['min_modules'] = minm
    trains = det.expected_trains(r, mods, minm, within)
    if not trains:
        return None
    if rng.random() < .2:
        kw['detector_name'] = r.name
    obj = getattr(kc, det.CLS[r.det])(dc, **kw)
    # a module none of whose files has one of these trains may be dropped
    mods = {m: s for m, s in mods.items() if source_visible(r, s, trains)}
    return obj, mods, trains


def dims_for(r, key):
    if key == 'image.data' and r.raw and r.sources[det.modules_of(r)[r.mods[0]]].keys[key].shape[0] == 2:
        return ('data_gain', 'slow_scan', 'fast_scan')
    if key in ('image.data', 'image.gain', 'image.mask'):
        return ('slow_scan', 'fast_scan')
    return ()


def check_cells(ctx, arr, exp, axes, what, r, mods, dtype, trains):
    """arr must hold exp at the labelled positions and nothing anywhere else"""
    labels = []
    for ax in axes:
        lab = [int(x) for x in arr.coords[ax].values]
        labels.append(lab)
        if not ctx.check(lab == sorted(set(lab)), 'labels', '%s: %s labels %r' % (what, ax, lab), run=r.describe()):
            return
    pos = [{x: i for i, x in enumerate(l)} for l in labels]
    v = arr.values
    filled = set()
    for cell, e in exp.items():
        if not all(c in p for c, p in zip(cell, pos)):
            ctx.violation('missing', '%s: nothing at %r (labels %r)' % (what, cell, labels), run=r.describe())
            return
        ix = tuple(p[c] for c, p in zip(cell, pos))
        filled.add(ix)
        got = v[ix]
        want = np.asarray(e).astype(v.dtype)
        ctx.count('cells')
        if not ctx.check(got.shape == want.shape and np.array_equal(got, want, equal_nan=v.dtype.kind == 'f'), 'cell',
                         '%s: at %r got %r instead of %r' % (what, cell, got.ravel()[:8], want.ravel()[:8]), run=r.describe()):
            return
    n = 0
    for ix in np.ndindex(v.shape[:len(axes)]):
        if ix in filled:
            continue
        n += 1
        if not ctx.check(v.dtype.kind == 'f' and np.isnan(v[ix]).all(), 'not-filled', '%s: at %r, where there is no data: %r' % (
                what, [l[i] for l, i in zip(labels, ix)], np.asarray(v[ix]).ravel()[:8]), run=r.describe()):
            return
    ctx.count('gap_cells', n)
    if not n:
        ctx.check(v.dtype == np.dtype(dtype), 'dtype', '%s: %r instead of %r' % (what, v.dtype, dtype), run=r.describe())
    ctx.check(set(labels[0]) <= set(mods), 'modules', '%s: modules %r' % (what, labels[0]))
    ctx.check(set(labels[1]) <= set(trains), 'trains', '%s: trains %r' % (what, labels[1]))
    return n


def run_case(case, ctx):
    from karabo_data import by_id, by_index
    rng = rng_for(ID, *case)
    r, dc = make(rng, ctx)
    c = component(rng, r, dc)
    if c is None:
        raise Skip
    obj, mods, trains = c
    ctx.sample(r.describe())
    s0 = r.sources[mods[sorted(mods)[0]]]
    cover = tuple(tuple('x' if det.has(r, s, t) else '0' if t in r.sources[s].counts['image'] else '.' for t in r.det_trains)
                  for s in mods.values())
    for key in rng.sample(sorted(s0.keys), 4):
        p = det.Pulses(rng, r)
        kspec = s0.keys[key]
        what = '%s %s modules %r trains %r pulses %s' % (r.det, key, sorted(mods), trains, p.what)
        pulse = key.startswith('image.')
        if not pulse:
            exp = det.slow_cells(r, mods, key, trains)
            if not exp:
                continue
            arr = obj.get_array(key, **p.kw())
            axes = ('module', 'trainId')
            ctx.check(arr.dims[:2] == axes, 'dims', '%s: %r' % (what, arr.dims))
        else:
            exp = det.cells(r, mods, key, trains, p)
            arr = obj.get_array(key, **p.kw())
            axes = ('module', 'train', 'pulse')
            ctx.check(arr.dims == axes + dims_for(r, key), 'dims', '%s: %r' % (what, arr.dims), run=r.describe())
            if p.arg is not None:
                ctx.count('pulse_selected')
        ctx.count('arrays')
        check_cells(ctx, arr, exp, axes, what, r, mods, kspec.dtype, trains)
        ctx.seen(cover, key, p.what.split()[:2], len(trains))
        if ctx.violations:
            return
    # what can't be selected is refused
    bad = rng.choice([by_index[-1], by_id[-1], by_index[[0, -2]], by_id[np.array([-1, 1])], by_index[-3:], by_id[:-1], by_index[::-1], 5, [1], by_index[:2.5]])
    try:
        a = obj.get_array('image.data', pulses=bad)
    except (ValueError, NotImplementedError, TypeError):
        ctx.count('rejected')
    else:
        ctx.violation('accepted', 'pulses=%r gave an array of shape %r' % (bad, a.shape))
    try:
        obj.trains(pulses=bad)
    except (ValueError, NotImplementedError, TypeError):
        ctx.count('rejected')
    else:
        ctx.violation('accepted', 'trains(pulses=%r)' % (bad,))
