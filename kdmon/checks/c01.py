"""C01: get_array against the ground truth."""
import os
import numpy as np
from ..util import *

ID = 'C01'
RULE = ("random run directories (1-3 aggregators, 1-4 sequence files each, gaps, 0/1/n entries per train, "
        "padded indexes and data, both index styles, 12 dtypes) x train selections x ROI; an access is distinct by "
        "its per-file pattern of selected trains and entry counts, dtype and entry shape")
ASSUME = ["files have contiguous indexes and do not interleave in train order within a source",
          "regions of interest use what h5py supports (ascending slices, integers, ellipsis)"]
cases = std_cases({'quick': 640, 'thorough': 12000})
MINIMUM = {'accesses': 1000, 'entries': 2000}


def random_roi(rng, shape):
    """(by_index expression, numpy index)"""
    items = []
    nd = len(shape)
    n = rng.randint(0, nd)
    for d in shape[:n]:
        c = rng.random()
        if c < .2:
            items.append(rng.randrange(d))
        elif c < .3:
            items.append(slice(None))
        else:
            a = rng.randint(0, d)
            b = rng.randint(a, d)
            items.append(slice(rng.choice([a, None]) if a == 0 else a, rng.choice([b, None]) if b == d else b,
                               rng.choice([None, None, 1, 2])))
    if rng.random() < .3 and nd - n >= 0:
        pos = rng.choice([len(items)] + ([0] if n == nd else []))
        items.insert(pos, Ellipsis)
    if not items:
        return Ellipsis
    return items[0] if len(items) == 1 and rng.random() < .5 else tuple(items)


def run_case(case, ctx):
    from karabo_data import by_index
    rng = rng_for(ID, *case)
    r, d = make_run(rng, ctx, ctrl_holes=rng.random() < .15)
    dc = open_run(r, d, rng)
    ctx.sample(r.describe())
    if rng.random() < .15:
        no_trains(rng, ctx, r)
    for _ in range(rng.randint(1, 3)):
        trains = random_subset(rng, r.trains)
        if not trains:
            continue
        sub = select_trains(rng, dc, trains)
        view = model.View(r, trains)
        fl = fields(r)
        rng.shuffle(fl)
        for source, key in fl[:8]:
            if not source_visible(r, source, trains):
                continue
            exp, tids = view.array(source, key)
            k = r.sources[source].keys[key]
            kw = {}
            if rng.random() < .4:
                roi = random_roi(rng, k.shape)
                kw['roi'] = by_index[roi]
                exp = exp[(slice(None),) + (roi if isinstance(roi, tuple) else (roi,))]
                ctx.count('roi')
            if rng.random() < .2:
                kw['extra_dims'] = ['d%d' % i for i in range(exp.ndim - 1)]
            arr = sub.get_array(source, key, **kw)
            ctx.count('accesses')
            ctx.count('entries', len(exp))
            ctx.seen(shape_class(r, source, key, trains), repr(kw.get('roi')))
            what = '%s %s trains %r %s' % (source, key, trains, kw)
            ctx.check(model.same(arr.values, exp), 'values',
                      '%s: %s' % (what, '' if model.same(arr.values, exp) else model.diff(arr.values, exp)),
                      run=r.describe())
            ctx.check(arr.dims[0] == 'trainId' and (
                'extra_dims' not in kw or list(arr.dims[1:]) == kw['extra_dims']), 'dims', '%s: %r' % (what, arr.dims))
            if len(tids):
                got = arr.coords['trainId'].values if 'trainId' in arr.coords else None
                ctx.check(got is not None and got.tolist() == tids.tolist(), 'labels',
                          '%s: trainId %r instead of %r' % (what, got, tids), run=r.describe())


def no_trains(rng, ctx, r):
    """Files without any trains still have sources and keys"""
    import copy
    from karabo_data import H5File, RunDirectory
    e = copy.copy(r)
    e.files = [copy.copy(f) for f in r.files if f.sources]
    if not e.files:
        return
    for f in e.files:
        f.trains = []
    d = ctx.dir('empty')
    e.write(d)
    for dc, srcs in [(H5File(os.path.join(d, e.files[0].name)), e.files[0].sources), (RunDirectory(d), list(r.sources))]:
        ctx.check(len(dc.train_ids) == 0 and set(dc.all_sources) == set(srcs), 'empty-sources', 'without trains: trains %r, sources %r instead of %r' % (
            dc.train_ids, sorted(dc.all_sources), sorted(srcs)), run=e.describe())
        for s in srcs:
            keys = r.sources[s].keys
            if not ctx.check(set(dc.keys_for_source(s)) == set(keys), 'empty-keys', 'without trains: keys of %s are %r' % (s, dc.keys_for_source(s)), run=e.describe()):
                continue
            for k in keys.values():
                a = dc.get_array(s, k.name)
                exp, _ = model.View(r, []).array(s, k.name)
                ctx.check(model.same(a.values, exp), 'empty-array', 'without trains: %s %s is %r %r instead of %r %r' % (
                    s, k.name, a.shape, a.dtype, exp.shape, exp.dtype), run=e.describe())
                ctx.count('without_trains')
