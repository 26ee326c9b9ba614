"""C14: detector data train by train against the stored data and the combined array."""
import numpy as np
from ..util import *
from .. import det
from .c13 import make, component, dims_for, check_cells

ID = 'C14'
RULE = ("random AGIPD/LPD/DSSC runs as for C13, iterated with random pulse selections; which trains come, which keys and modules they "
        "have and every entry compared with the stored data and with get_array under the same selection; repeated and interleaved "
        "iterators; distinct by (coverage pattern, pulse selection)")
ASSUME = ["trains in which a module lacks data for some key are not iterated (that is what 'complete' means here)"]
cases = std_cases({'quick': 440, 'thorough': 6000})
MINIMUM = {'trains': 300, 'cells': 5000, 'skipped_trains': 150, 'pulse_selected': 80, 'arrays_compared': 400}


def complete(r, mods, t):
    return all(c.get(t, 0) > 0 for sn in mods.values() for c in r.sources[sn].counts.values())


def run_case(case, ctx):
    rng = rng_for(ID, *case)
    r, dc = make(rng, ctx, missing=rng.choice([None, None, 'full', 'zero']), max_mods=rng.choice([1, 2, 4]))
    c = component(rng, r, dc)
    if c is None:
        raise Skip
    obj, mods, trains = c
    ctx.sample(r.describe())
    p = det.Pulses(rng, r)
    what = '%s modules %r trains %r pulses %s' % (r.det, sorted(mods), trains, p.what)
    it = obj.trains(**p.kw())
    exp = [t for t in trains if complete(r, mods, t)]
    ctx.count('skipped_trains', len(trains) - len(exp))
    got = []
    other = iter(obj.trains()) if rng.random() < .3 else None
    held = []
    for tid, data in it:
        if other is not None:
            next(other, None)
        got.append(tid)
        ctx.count('trains')
        if tid not in exp:
            continue
        ctx.check(isinstance(tid, int), 'tid-type', repr(type(tid)))
        keys = set(r.sources[mods[sorted(mods)[0]]].keys)
        ctx.check(set(data) == keys, 'keys', '%s train %d: %r' % (what, tid, sorted(set(data) ^ keys)), run=r.describe())
        for key in keys & set(data):
            check_train(ctx, r, mods, tid, key, data[key], p, what)
        held.append((tid, data))
        if ctx.violations:
            return
    ctx.check(got == exp, 'trains', '%s: iterated %r instead of %r' % (what, got, exp), run=r.describe())
    if p.arg is not None:
        ctx.count('pulse_selected')
    # the same as the combined array says
    for key in rng.sample(sorted(r.sources[mods[sorted(mods)[0]]].keys), 3):
        if not held:
            break
        whole = obj.get_array(key, **p.kw())
        for tid, data in held:
            a = data[key]
            ctx.count('arrays_compared')
            if key.startswith('image.'):
                if not a.size:
                    ctx.check(tid not in whole.coords['train'].values or
                              bool(np.isnan(whole.sel(train=tid).values.astype(float)).all()), 'differs', '%s %s %d: empty' % (what, key, tid))
                    continue
                w = whole.sel(train=[tid], module=a.coords['module'].values, pulse=a.coords['pulse'].values)
            else:
                w = whole.sel(trainId=tid, module=a.coords['module'].values)
            ctx.check(np.array_equal(w.values, a.values.astype(w.dtype), equal_nan=w.dtype.kind == 'f'), 'differs',
                      '%s: %s of train %d differs from get_array' % (what, key, tid), run=r.describe())
    if rng.random() < .3:
        again = [t for t, _ in it]
        ctx.check(again == exp, 'again', '%s: iterating again gives %r' % (what, again))
    ctx.seen(tuple(tuple(r.sources[s].counts['image'].get(t, 9) for t in trains) for s in mods.values()), p.what)


def check_train(ctx, r, mods, tid, key, a, p, what):
    what = '%s: %s of train %d' % (what, key, tid)
    ms = [int(x) for x in a.coords['module'].values]
    if not ctx.check(ms == sorted(mods), 'modules', '%s: modules %r' % (what, ms), run=r.describe()):
        return
    kspec = r.sources[mods[ms[0]]].keys[key]
    if key.startswith('image.'):
        exp = det.cells(r, mods, key, [tid], p)
        ctx.check(a.dims == ('module', 'train', 'pulse') + dims_for(r, key), 'dims', '%s: %r' % (what, a.dims))
        n = check_cells(ctx, a, exp, ('module', 'train', 'pulse'), what, r, mods, kspec.dtype, [tid])
        if exp:
            ctx.check([int(x) for x in a.coords['train'].values] == [tid], 'train-label', what)
            ctx.check(n == 0, 'extra', '%s: %r entries without data' % (what, n))
        else:
            ctx.check(a.size == 0, 'extra', '%s: should be empty, has shape %r' % (what, a.shape))
    else:
        for i, m in enumerate(ms):
            e = r.sources[mods[m]].data[key][tid][0]
            v = a.values[i]
            ctx.count('cells')
            ctx.check(np.array_equal(v, e) and v.dtype == e.dtype, 'slow', '%s module %d: %r instead of %r' % (what, m, v, e), run=r.describe())
