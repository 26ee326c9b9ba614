"""C16: virtual CXI files against the stored frames."""
import logging, os, sys
import h5py
import numpy as np
from ..util import *
from .. import det, gen
from .c13 import make, component

ID = 'C16'
RULE = ("random AGIPD/LPD/DSSC runs (raw with and without gain axis, corrected with and without mask; own train coverage, zero counts and "
        "sequence splits per module; small modules through a subclass, real sizes through the command) x modules x min_modules x train "
        "selection, written and read back with plain h5py; every frame of every module compared; distinct by coverage pattern and layout")
ASSUME = ["missing positions are not-a-number for floating point data and zero for integers",
          "pulse IDs are the same in all modules of a train"]
MINIMUM = {'data_gain': 100, 'files': 200, 'frames': 4000, 'missing_frames': 1000, 'command': 4, 'mismatched': 30}


def cases(tier, seed):
    n, m, k = {'quick': (320, 8, 60), 'thorough': (5000, 60, 800)}[tier]
    return [('s', seed, i) for i in range(n)] + [('cli', seed, i) for i in range(m)] + [('mix', seed, i) for i in range(k)]


def check_file(ctx, path, r, mods, trains, what, ntotal=16):
    F = r.F
    s0 = r.sources[mods[sorted(mods)[0]]]
    with h5py.File(path, 'r') as f:
        ctx.count('files')
        e = f['entry_1']
        n = len(trains) * F
        want_t = np.repeat(np.array(trains, 'u8'), F)
        want_p = np.concatenate([r.pids[t] for t in trains])
        ctx.check(model.same(e['trainId'][:], want_t), 'trainId', '%s: %r instead of %r' % (what, e['trainId'][:], want_t), run=r.describe())
        ctx.check(e['pulseId'].shape == want_p.shape and np.array_equal(e['pulseId'][:], want_p), 'pulseId', '%s: %r instead of %r' % (
            what, e['pulseId'][:], want_p), run=r.describe())
        ids = [x.decode() if isinstance(x, bytes) else x for x in e['experiment_identifier'][:]]
        ctx.check(ids == ['%d:%d' % (t, p) for t, p in zip(want_t, want_p)], 'identifier', '%s: %r' % (what, ids[:4]))
        dg = e['instrument_1/detector_1']
        sets = {'image.cellId': e['cellId'], 'image.data': dg['data']}
        for k in ('gain', 'mask'):
            have = 'image.' + k in s0.keys
            if ctx.check((k in dg) == have, 'datasets', '%s: %s in the file: %r' % (what, k, k in dg)) and have:
                sets['image.' + k] = dg[k]
        ctx.check(e['data_1/data'].shape == dg['data'].shape, 'link', what)
        mi = [int(x) for x in dg['module_identifier'][:]]
        ctx.check(mi == sorted(mods), 'module_identifier', '%s: %r instead of %r' % (what, mi, sorted(mods)))
        for key, ds in sets.items():
            k = s0.keys[key]
            shape = () if key == 'image.cellId' else k.shape
            if not ctx.check(ds.shape == (n, ntotal) + shape and ds.dtype == np.dtype(k.dtype), 'shape', '%s: %s is %r %r' % (what, key, ds.shape, ds.dtype),
                             run=r.describe()):
                continue
            got = ds[:]
            for m in range(ntotal):
                src = r.sources.get(mods.get(m))
                for i, t in enumerate(trains):
                    a = src.data[key].get(t) if src else None
                    g = got[i * F:(i + 1) * F, m]
                    if a is None or not len(a):
                        ctx.count('missing_frames', F)
                        if g.dtype.kind == 'f':
                            ok = bool(np.isnan(g).all())
                        else:
                            ok = not g.any()
                        ctx.check(ok, 'fill', '%s: %s module %d train %d should be empty, has %r' % (what, key, m, t, g.ravel()[:6]), run=r.describe())
                    else:
                        ctx.count('frames', F)
                        a = a.reshape(g.shape) if key == 'image.cellId' else a
                        ctx.check(model.same(np.ascontiguousarray(g), a), 'frames', '%s: %s module %d train %d: %r instead of %r' % (
                            what, key, m, t, g.ravel()[:6], a.ravel()[:6]), run=r.describe())
            if ctx.violations:
                return
        ctx.check([int(x) for x in f['cxi_version'][:]] == [150], 'version', '%s: CXI version %r' % (what, f['cxi_version'][:]))
        ctx.check(dg['experiment_identifier'] == e['experiment_identifier'], 'link', '%s: identifiers of the detector' % what)
        for k in ('data', 'gain', 'mask'):
            if k in dg:
                axes = dg[k].attrs['axes'].split(':')
                ctx.check(len(axes) == dg[k].ndim and axes[:2] == ['experiment_identifier', 'module_identifier'] and axes[-2:] == ['y', 'x'],
                          'axes', '%s: %r for %s of shape %r' % (what, axes, k, dg[k].shape))
        if dg['data'].ndim == 5:     # the second one of each pair of raw frames is the gain
            lab = [x.decode() if isinstance(x, bytes) else x for x in dg['data_gain'][:]]
            ctx.check(lab == ['data', 'gain'][:dg['data'].shape[2]], 'data-gain', '%s: axis of length %d labelled %r' % (what, dg['data'].shape[2], lab))
            ctx.count('data_gain')


def run_case(case, ctx):
    import karabo_data.components as kc
    rng = rng_for(ID, *case)
    if case[0] == 'cli':
        return command(rng, ctx)
    if case[0] == 'mix':
        return mixed(rng, ctx)
    r, dc = make(rng, ctx, same_pulses=rng.random() < .4, header_holes=False)
    Base = getattr(kc, det.CLS[r.det])
    class Small(Base):
        module_shape = r.img
    old = getattr(kc, det.CLS[r.det])
    setattr(kc, det.CLS[r.det], Small)
    try:
        c = component(rng, r, dc)
    finally:
        setattr(kc, det.CLS[r.det], old)
    if c is None:
        raise Skip
    obj, mods, trains = c
    ctx.sample(r.describe())
    out = os.path.join(ctx.dir('out'), 'x.cxi')
    what = '%s %s modules %r trains %r' % (r.det, 'raw' if r.raw else 'corrected', sorted(mods), trains)
    if rng.random() < .2:
        with open(out, 'wb') as f:
            f.write(b'something else')
    h = None
    obj.write_virtual_cxi(out)
    check_file(ctx, out, r, mods, trains, what)
    ctx.seen(r.det, r.raw, len(r.img), tuple(tuple(r.sources[s].counts['image'].get(t, 9) for t in r.det_trains) for s in mods.values()), tuple(trains))


def mixed(rng, ctx):
    """Frames of different pulses must not be put side by side"""
    import karabo_data.components as kc
    r = det.gen_det_run(rng, same_pulses=rng.random() < .4, header_holes=False)
    mods = det.modules_of(r)
    trains = det.expected_trains(r, mods, 1)
    at = [t for t in trains if sum(det.has(r, s, t) for s in mods.values()) > 1]
    if not at:
        raise Skip
    if rng.random() < .3:
        at = at[-1:]
    t = rng.choice(at)
    m = rng.choice([m for m, s in mods.items() if det.has(r, s, t)])
    a = r.sources[mods[m]].data['image.pulseId'][t]
    new = a.copy()
    i = rng.randrange(r.F)
    how = rng.choice(['other', 'zero', 'reversed', 'high'])
    if how == 'reversed':
        new = new[::-1].copy()
    else:
        new[i] = {'other': new[i] + 1, 'zero': 0, 'high': 2699}[how]
    if np.array_equal(new, a):
        raise Skip
    if rng.random() < .3:      # in every train
        for u in at:
            d = r.sources[mods[m]].data['image.pulseId']
            if u != t and len(d.get(u, ())):
                d[u] = new.copy() if rng.random() < .5 else d[u][::-1].copy()
    r.sources[mods[m]].data['image.pulseId'][t] = new
    d = ctx.dir('run')
    r.write(d)
    obj = getattr(kc, det.CLS[r.det])(open_run(r, d, rng))
    out = os.path.join(ctx.dir('out'), 'x.cxi')
    try:
        obj.write_virtual_cxi(out)
    except Exception as e:
        ctx.count('mismatched')
        ctx.seen('mix', how, r.det, len(mods), len(trains))
        return
    with h5py.File(out, 'r') as f:
        got = f['entry_1/pulseId'][:]
    ctx.violation('mixed-pulses', '%s modules %r: pulse IDs of train %d are %r in module %d and %r in the others; written with pulse IDs %r' % (
        r.det, sorted(mods), t, new.ravel(), m, a.ravel(), got), run=r.describe())


def command(rng, ctx):
    from karabo_data.cli.make_virtual_cxi import main
    name = rng.choice(['AGIPD', 'LPD'])
    raw = rng.random() < .4
    r = det.gen_det_run(rng, name, raw, max_trains=3, mods=sorted(rng.sample(range(16), rng.randint(2, 3))), img=gen.DETS[name][1],
                        frames=rng.choice([1, 2]), same_pulses=True, header_holes=False, mask=True)
    base = ctx.dir('p')
    kind, run = rng.choice(['raw', 'proc']), 'r%04d' % rng.randint(1, 9999)
    d = os.path.join(base, kind, run)
    os.makedirs(d)
    os.makedirs(os.path.join(base, 'scratch'))
    r.write(d)
    mods = det.modules_of(r)
    minm = rng.choice([1, 1, 2])
    trains = det.expected_trains(r, mods, minm)
    if not trains:
        raise Skip
    mods = {m: s for m, s in mods.items() if source_visible(r, s, trains)}
    argv = [d, '--min-modules', str(minm)]
    if rng.random() < .5:
        out = os.path.join(base, 'out.cxi')
        argv += ['-o', out]
    elif kind == 'proc' and rng.random() < .5:
        argv = [base, run[1:], '--min-modules', str(minm)]
        out = os.path.join(base, 'scratch', '%s_detectors_virt.cxi' % run)
    else:
        out = os.path.join(base, 'scratch', '%s_%s_detectors_virt.cxi' % (run, kind))
    with quiet():
        root = logging.getLogger()
        hs, lv = root.handlers[:], root.level
        try:
            main(argv)
        finally:
            root.handlers[:], root.level = hs, lv
    ctx.count('command')
    if ctx.check(os.path.exists(out), 'no-output', 'command %r wrote nothing at %s: %r' % (argv, out, os.listdir(os.path.join(base, 'scratch')))):
        check_file(ctx, out, r, mods, trains, 'command %r' % argv)
        ctx.seen('cli', name, raw, kind, tuple(mods))
