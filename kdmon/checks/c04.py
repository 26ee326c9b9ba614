"""C04: lazy arrays and virtual datasets against the ground truth."""
import os, tempfile
import h5py
import numpy as np
from ..util import *

ID = 'C04'
RULE = ("random runs x train selections x fields, each read through dask and through a virtual dataset (new temp file, "
        "named file, overwritten file); plus sparse datasets of 2-9 GiB read at single entries through dask; distinct "
        "by per-file pattern of selected trains and counts, dtype, shape and access kind")
ASSUME = ["the original files stay in place while a virtual dataset is read"]
N = {'quick': 400, 'thorough': 6000}
NBIG = {'quick': 24, 'thorough': 200}
MINIMUM = {'dask': 1000, 'virtual': 500, 'big_entries': 40, 'virtual_empty': 5, 'same_names': 20}


def cases(tier, seed):
    return [('small', seed, i) for i in range(N[tier])] + [('big', seed, i) for i in range(NBIG[tier])]


def run_case(case, ctx):
    if case[0] == 'big':
        return big(case, ctx)
    rng = rng_for(ID, *case)
    r, d = make_run(rng, ctx, big=rng.random() < .03)
    how = rng.random()
    old = os.getcwd()
    if how < .15:
        # opened by a relative path, read from elsewhere
        from karabo_data import RunDirectory
        os.chdir(os.path.dirname(d))
        try:
            dc = RunDirectory(os.path.basename(d))
            if how < .07:
                os.chdir('/')
            small(rng, r, d, dc, ctx)
        finally:
            os.chdir(old)
    else:
        d2 = same_names(rng, r, d, ctx) if how < .45 else None
        if d2:
            ctx.count('same_names')
        small(rng, r, d, open_run(r, (d, d2) if d2 else d, rng), ctx)


def small(rng, r, d, dc, ctx):
    from karabo_data import H5File
    ctx.sample(r.describe())
    tempfile.tempdir = ctx.tmp
    for _ in range(rng.randint(1, 2)):
        trains = random_subset(rng, r.trains)
        if not trains:
            raise Skip
        sub = select_trains(rng, dc, trains)
        view = model.View(r, trains)
        fl = [f for f in fields(r) if source_visible(r, f[0], trains)]
        rng.shuffle(fl)
        for n, (source, key) in enumerate(fl[:6]):
            exp, tids = view.array(source, key)
            dt = r.sources[source].keys[key].dtype
            what = '%s %s trains %r' % (source, key, trains)
            da = sub.get_dask_array(source, key)
            ctx.count('dask')
            ctx.seen('dask', shape_class(r, source, key, trains))
            try:
                got = da.compute(scheduler='synchronous')
            except Exception as e:
                ctx.violation('dask-compute', '%s: %r' % (what, e), run=r.describe())
                continue
            ctx.check(tuple(da.shape) == exp.shape, 'dask-shape', '%s: declared %r instead of %r' % (what, da.shape, exp.shape))
            ctx.check(model.same(got, exp), 'dask-values', '%s: %s' % (what, '' if model.same(got, exp) else model.diff(got, exp)),
                      run=r.describe())
            if n >= 3:
                continue
            kw = {}
            if rng.random() < .6:
                kw['filename'] = os.path.join(ctx.tmp, 'vds%d.h5' % n)
                if rng.random() < .3:
                    with open(kw['filename'], 'w') as f:
                        f.write('something else')
            ds = sub.get_virtual_dataset(source, key, **kw)
            ctx.count('virtual')
            if not len(exp):
                ctx.count('virtual_empty')
            ctx.seen('vds', shape_class(r, source, key, trains))
            got = ds[()]
            ctx.check(model.same(got, exp), 'vds-values', '%s: %s' % (what, '' if model.same(got, exp) else model.diff(got, exp)),
                      run=r.describe())
            fn, path = ds.file.filename, ds.name
            if 'filename' in kw:
                ctx.check(os.path.samefile(fn, kw['filename']), 'vds-file', '%s: written to %s' % (what, fn))
            ds.file.close()
            # From "another process": reopen by file name and dataset path
            with h5py.File(fn, 'r') as f:
                got = f[path][()]
            ctx.check(model.same(got, exp), 'vds-reopen', '%s: read again by name' % what)
            f = H5File(fn)
            ctx.check([int(t) for t in f.train_ids] == trains, 'vds-trains', '%s: file has trains %r' % (what, f.train_ids),
                      run=r.describe())
            ctx.check(set(f.all_sources) == {source}, 'vds-source', '%s: file has sources %r' % (what, f.all_sources))
            if source in f.all_sources:
                got = {int(t): int(c) for t, c in f.get_data_counts(source, key).items() if c}
                e2 = {t: c for t, c in view.counts(source, key).items() if c}
                ctx.check(got == e2, 'vds-counts', '%s: counts %r instead of %r' % (what, got, e2), run=r.describe())
                a = f.get_array(source, key)
                ctx.check(model.same(a.values, exp) and (not len(tids) or a.coords['trainId'].values.tolist() == tids.tolist()),
                          'vds-array', '%s: get_array on the file differs' % what, run=r.describe())
            f.files[0].close()
            os.unlink(fn)


def big(case, ctx):
    """Datasets around and above the 2 GiB chunk limit, almost all unallocated"""
    from karabo_data import RunDirectory, by_index
    rng = rng_for(ID, *case)
    d = ctx.dir('big')
    n = rng.randint(2, 9)
    itemsize = rng.choice([1, 2, 4, 8])
    dt = 'u%d' % itemsize
    per = rng.choice([1 << 29, 3 << 28, (1 << 30) + 7, 1 << 31, (1 << 28) + 1, (1 << 31) + 512, 3 << 30])   # bytes per entry
    shape = (per // itemsize // 64, 64)
    nfiles = rng.choice([1, 2])
    trains = gen.gen_trains(rng, n)
    parts = split_trains = gen.split_sorted(rng, trains, nfiles)
    truth = []
    for i, p in enumerate(parts):
        with h5py.File(os.path.join(d, 'RAW-R0001-DA01-S%05d.h5' % i), 'w') as f:
            f['INDEX/trainId'] = np.array(p, 'u8')
            cnt = np.array([rng.choice([0, 1, 1, 2]) for _ in p], 'u8')
            first = np.zeros_like(cnt)
            first[1:] = np.cumsum(cnt)[:-1]
            f['INDEX/X/CAM/1:out/data/first'] = first
            f['INDEX/X/CAM/1:out/data/count'] = cnt
            f.create_dataset('METADATA/dataSourceId', (1,), dtype=gen.VB)[0] = b'INSTRUMENT/X/CAM/1:out/data'
            tot = int(cnt.sum())
            ds = f.create_dataset('INSTRUMENT/X/CAM/1:out/data/pix', (tot,) + shape, dtype=dt, chunks=(1, 1024, 64),
                                  maxshape=(None,) + shape)
            j = 0
            for t, c in zip(p, cnt):
                for _ in range(int(c)):
                    where = rng.randrange(shape[0])
                    val = (len(truth) * 7 + 1) % 251
                    ds[j, where, rng.randrange(1, 64)] = val
                    ds[j, where, 0] = val
                    truth.append((t, where, val))
                    j += 1
    run = RunDirectory(d)
    sel = random_subset(rng, trains)
    sub = select_trains(rng, run, sel)
    exp = [x for x in truth if x[0] in sel]
    arr = sub.get_dask_array('X/CAM/1:out', 'data.pix')
    ctx.count('dask')
    ctx.seen('big', len(exp), per, dt, tuple(len(p) for p in parts), tuple(t in sel for t in trains))
    ctx.check(tuple(arr.shape) == (len(exp),) + shape and arr.dtype == dt, 'big-shape',
              'declared %r %s instead of %r %s' % (arr.shape, arr.dtype, (len(exp),) + shape, dt))
    for i, (t, where, val) in enumerate(exp):
        got = int(arr[i, where, 0].compute(scheduler='synchronous'))
        others = arr[i, where, :].compute(scheduler='synchronous')
        ctx.count('big_entries')
        ctx.check(got == val and (others == val).sum() == 2 and others.shape == (64,), 'big-values',
                  'entry %d: %r instead of %r' % (i, got, val))
