"""C17: stacking of detector modules against explicit stacking."""
import numpy as np
from ..util import *
from .. import det, gen

ID = 'C17'
RULE = ("random sets of modules with array shapes, dtypes, kinds of missing data (source, key, empty array), stack axes and fill values; "
        "stack_detector_data copied and as a view x random index expressions (chained) and conversion, stack_data on random device names, "
        "and trains read from generated detector runs; compared with numpy stacking; distinct by shape, axis, dtype, missing and index")
ASSUME = ["a view is indexed with integers, slices and Ellipsis, on the stack axis with one module or all of them",
          "arrays of one train do not differ in more than being empty or not"]
MINIMUM = {'stacked': 1500, 'view_index': 4000, 'missing': 2500, 'rejected': 300, 'stack_data': 700, 'from_run': 10}

DT = ['u1', 'u2', 'i2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', '?', 'f2']


def cases(tier, seed):
    n, m = {'quick': (1200, 48), 'thorough': (40000, 600)}[tier]
    return [('s', seed, i) for i in range(n)] + [('run', seed, i) for i in range(m)]


def name(det, m):
    return '%s/DET/%dCH0:xtdf' % (det, m)


def reference(arrays, n, shape, dtype, fill, axis):
    parts = []
    for m in range(n):
        parts.append(arrays[m] if m in arrays else np.full(shape, fill, dtype))
    return np.stack(parts, axis=axis)


def index_expr(rng, nd, shape, axis):
    """A random index (tuple) and whether it takes one module"""
    full = []
    for d in range(nd):
        n = shape[d]
        if d == axis:
            full.append(rng.choice([slice(None), slice(None), 'int']))
        else:
            full.append(rng.choice([slice(None), slice(None), 'int', 'slice', 'step']))
    single = full[axis] == 'int'
    for d, x in enumerate(full):
        n = shape[d]
        if x == 'int':
            if n == 0:
                full[d] = slice(None)
                single = single and d != axis
                continue
            v = rng.randrange(-n, n)
            full[d] = rng.choice([int, int, np.int64, np.int32])(v)
        elif x == 'slice':
            full[d] = slice(rng.choice([None, 0, 1, -1]), rng.choice([None, n, n // 2, -1, n + 3]))
        elif x == 'step':
            full[d] = slice(None, None, rng.choice([1, 2, -1]))
    form = rng.choice(['full', 'full', 'ell', 'prefix'])
    trivial = [isinstance(x, slice) and x == slice(None) for x in full]
    if form == 'prefix':
        while full and isinstance(full[-1], slice) and full[-1] == slice(None):
            full.pop()
        if len(full) == 1 and rng.random() < .5:
            return full[0], single
        return tuple(full), single
    if form == 'ell':
        runs = [i for i, t in enumerate(trivial) if t]
        if runs:
            i = rng.choice(runs)
            j = i
            while j + 1 < len(full) and trivial[j + 1]:
                j += 1
            return tuple(full[:i]) + (Ellipsis,) + tuple(full[j + 1:]), single
        i = rng.randint(0, len(full))
        return tuple(full[:i]) + (Ellipsis,) + tuple(full[i:]), single
    return tuple(full), single


def view_check(rng, ctx, view, ref, axis, what, depth=0):
    """axis: the (positive) stack axis of ref and view"""
    from karabo_data.stacking import StackView
    ctx.check(tuple(view.shape) == ref.shape and view.ndim == ref.ndim and view.dtype == ref.dtype, 'view-shape',
              '%s: view is %r %r, array is %r %r' % (what, view.shape, view.dtype, ref.shape, ref.dtype))
    arr = view.asarray()
    ctx.check(model.same(np.ascontiguousarray(arr), np.ascontiguousarray(ref)), 'view-asarray', '%s: asarray() differs: %r instead of %r' % (
        what, (arr.shape, arr.ravel()[:8]), (ref.shape, ref.ravel()[:8])))
    repr(view)
    for _ in range(rng.randint(1, 4)):
        ix, single = index_expr(rng, ref.ndim, ref.shape, axis)
        want = ref[ix]
        got = view[ix]
        ctx.count('view_index')
        w = '%s [%r]' % (what, ix)
        if isinstance(got, StackView):
            # one dimension is removed for each integer before the stack axis
            full = ix if isinstance(ix, tuple) else (ix,)
            if Ellipsis in [x for x in full if not isinstance(x, (int, np.integer))]:
                k = [i for i, x in enumerate(full) if x is Ellipsis][0]
                full = full[:k] + (slice(None),) * (ref.ndim - len(full) + 1) + full[k + 1:]
            ax = sum(isinstance(x, slice) for x in (full + (slice(None),) * ref.ndim)[:axis])
            ctx.check(not single, 'view-single', '%s: gave a view' % w)
            if depth < 2 and rng.random() < .7:
                view_check(rng, ctx, got, want, ax, w, depth + 1)
            else:
                ctx.check(tuple(got.shape) == want.shape, 'view-index-shape', '%s: %r instead of %r' % (w, got.shape, want.shape))
                a = got.asarray()
                ctx.check(model.same(np.ascontiguousarray(a), np.ascontiguousarray(want)), 'view-index', '%s: %r instead of %r' % (w, a, want))
        else:
            got = np.asarray(got)
            want = np.asarray(want)
            ctx.check(model.same(np.ascontiguousarray(got), np.ascontiguousarray(want)), 'view-index', '%s: %r %r instead of %r %r' % (
                w, got.shape, got.ravel()[:8], want.shape, want.ravel()[:8]))
    n = ref.shape[axis]
    for bad in (n, -n - 1, n + 5):
        ix = (slice(None),) * axis + (bad,)
        try:
            x = view[ix]
        except IndexError:
            ctx.count('rejected')
        else:
            ctx.check(False, 'view-out-of-range', '%s: module %d of %d gave %r' % (what, bad, n, x))


def stack_case(rng, ctx):
    from karabo_data import stack_detector_data, stack_data
    nd = rng.choice([2, 3, 3, 4, 4])
    shape = tuple(rng.choice([1, 2, 3, 4]) for _ in range(nd))
    if rng.random() < .05:
        shape = (0,) + shape[1:]
    dt = np.dtype(rng.choice(DT))
    nmod = rng.choice([16, 16, 16, 1, 2, 4, 8])
    mods = sorted(rng.sample(range(nmod), rng.randint(1, nmod)))
    detn = rng.choice(['FXE_DET_LPD1M-1', 'SPB_DET_AGIPD1M-1', 'MID_EXP_2/DET4CH7'])
    key = rng.choice(['image.data', 'image.gain', 'x'])
    train, arrays, kinds = {}, {}, {}
    off = 1
    for m in rng.sample(mods, len(mods)):
        kind = rng.choice(['data', 'data', 'data', 'nokey', 'empty', 'nosource'])
        if m == mods[0]:
            kind = 'data'
        kinds[m] = kind
        size = int(np.prod(shape))
        if dt.kind == '?' or dt == bool:
            a = (np.arange(off, off + size) * 7 % 3 > 0)
        else:
            a = np.arange(off, off + size) % (250 if dt.itemsize == 1 else 2000) + 1
        a = a.astype(dt).reshape(shape)
        off += size
        if rng.random() < .2:
            a = np.asfortranarray(a)
        other = {'metadata': {'timestamp.tid': 5}, 'image.other': np.zeros(3)}
        if kind == 'nosource':
            continue
        train[name(detn, m)] = other
        if kind == 'data':
            other[key] = a
            arrays[m] = a
        elif kind == 'empty':
            other[key] = np.zeros((0,) + shape[1:], dt)
    axis = rng.randrange(-nd - 1, nd + 1)
    kw = {}
    if nmod != 16 or rng.random() < .3:
        kw['modules'] = nmod
    if axis != -3 or rng.random() < .3:
        kw['axis'] = axis
    fill = 0 if dt.kind in 'uib' else np.nan
    if rng.random() < .5:
        kw['fillvalue'] = fill = rng.choice([0, 22, 1, np.nan] if dt.kind == 'f' else [0, 22, 1])
    what = 'stack_detector_data(%s %s modules %r axis %d fill %r %r)' % (dt, shape, kinds, axis, fill, sorted(kw))
    ctx.sample(what)
    ref = reference(arrays, nmod, shape, dt, fill, axis)
    before = {s: sorted(d) for s, d in train.items()}
    copies = {m: a.copy() for m, a in arrays.items()}
    got = stack_detector_data(train, key, **kw)
    ctx.count('stacked')
    ctx.count('missing', nmod - len(arrays))
    ctx.check(isinstance(got, np.ndarray) and got.dtype == dt and model.same(np.ascontiguousarray(got), ref), 'stacked',
              '%s: %r %r instead of %r %r' % (what, got.shape, got.ravel()[:8], ref.shape, ref.ravel()[:8]))
    ctx.check(not any(np.shares_memory(got, a) for a in arrays.values()) or got.size == 0, 'stacked-copy', '%s: the copy shares memory with a module' % what)
    ctx.seen(shape, axis, dt.str, tuple(sorted(kinds.items())))
    view = stack_detector_data(train, key, real_array=False, **kw)
    ax = axis % (nd + 1)
    view_check(rng, ctx, view, ref, ax, what + ' view')
    ctx.check({s: sorted(d) for s, d in train.items()} == before, 'train-changed', '%s: the train data changed' % what)
    ctx.check(all(model.same(np.ascontiguousarray(train[name(detn, m)][key]), np.ascontiguousarray(copies[m])) for m in arrays), 'train-changed', '%s: module data changed' % what)
    # the view comes out the same again
    ctx.check(model.same(np.ascontiguousarray(view.asarray()), np.ascontiguousarray(ref)), 'view-again', '%s: view changed by indexing' % what)
    # rejections
    bad = rng.choice(['range', 'dtype', 'shape', 'shape2', 'shape3', 'source', 'empty', 'shape-empty'])
    t2 = dict(train)
    exc = (ValueError, IndexError)
    kw2 = dict(kw)
    a0 = next(iter(arrays.values()))
    def put(m, arr):
        t2[name(detn, m)] = {key: arr}
    spare = [m for m in range(nmod) if m not in arrays]
    if bad == 'range':
        hi = max(arrays)
        if rng.random() < .5 or hi == 0:
            put(nmod + rng.randint(0, 5), a0)
        else:
            kw2['modules'] = rng.randint(1, hi)
    elif bad == 'source':
        t2[rng.choice(['SA1_XTD2_XGM/DOOCS/MAIN', 'FXE_DET_LPD1M-1/FPGA/3', 'FXE/DET/CH0:xtdf'])] = {key: a0}
    elif bad == 'empty':
        t2 = {}
    else:
        if not spare or a0.size == 0:
            return
        m = rng.choice(spare)
        if bad == 'dtype':
            put(m, a0.astype('f4' if dt != np.dtype('f4') else 'u2'))
        elif bad == 'shape':
            put(m, np.zeros((shape[0] + 1,) + shape[1:], dt))
        elif bad == 'shape2':
            put(m, np.zeros(shape[:-1] + (shape[-1] + 1,), dt))
        elif bad == 'shape-empty':
            put(m, np.zeros((0,) + shape[1:-1] + (shape[-1] + 1,), dt))
        else:
            put(m, np.zeros(shape[1:], dt))
    for ra in (True, False):
        try:
            got = stack_detector_data(t2, key, real_array=ra, **kw2)
        except exc:
            ctx.count('rejected')
        else:
            ctx.check(False, 'not-rejected', '%s with %s: gave %r' % (what, bad, getattr(got, 'shape', got)))


def natural(rng, ctx):
    from karabo_data import stack_data
    n = rng.randint(1, 9)
    nums = set()
    depth = rng.choice([1, 2])
    while len(nums) < n:
        nums.add(tuple(rng.choice([0, 1, 2, 7, 9, 10, 11, 12, 99, 100, 103]) for _ in range(depth)))
    names = {}
    for t in nums:
        pre = rng.choice(['A_', 'B_', 'Z', 'a/'])
        names[t] = pre + str(t[0]) + (rng.choice(['_', '/X', ':c']) + str(t[1]) if depth == 2 else '') + rng.choice(['', '/out', ':data'])
    shape = tuple(rng.choice([1, 2, 3]) for _ in range(rng.choice([2, 3, 4])))
    dt = rng.choice(DT)
    order = list(nums)
    rng.shuffle(order)
    train = {}
    for i, t in enumerate(order):
        train[names[t]] = {'d.x': (np.arange(np.prod(shape)).reshape(shape) + 17 * i).astype(dt)}
    axis = rng.randrange(-len(shape) - 1, len(shape) + 1)
    kw = {} if axis == -3 else {'axis': axis}
    drop = []
    if rng.random() < .5:
        drop = rng.sample(order, rng.randint(0, n - 1))
        kw['xcept'] = [names[t] for t in drop]
        for t in drop:
            if rng.random() < .5:
                train[names[t]] = {'other': 1}
    keep = sorted(t for t in nums if t not in drop)
    what = 'stack_data(%r axis %d xcept %r)' % (list(train), axis, kw.get('xcept'))
    got = stack_data(train, 'd.x', **kw)
    ref = np.stack([train[names[t]]['d.x'] for t in keep], axis=axis)
    ctx.count('stack_data')
    ctx.check(got.dtype == ref.dtype and model.same(np.ascontiguousarray(got), np.ascontiguousarray(ref)), 'stack_data', '%s: %r instead of %r' % (what, got.ravel()[:20], ref.ravel()[:20]))
    ctx.seen('natural', tuple(names[t] for t in keep), axis)
    if len(keep) > 1:
        t2 = dict(train)
        k = rng.choice(keep)
        a = train[names[k]]['d.x']
        t2[names[k]] = {'d.x': a.astype('f8' if a.dtype != np.dtype('f8') else 'u2') if rng.random() < .5 else np.zeros(a.shape + (2,), a.dtype)}
        try:
            x = stack_data(t2, 'd.x', **kw)
        except ValueError:
            ctx.count('rejected')
        else:
            ctx.check(False, 'not-rejected', '%s with an inconsistent device: gave %r' % (what, x.shape))
    try:
        stack_data(train, 'd.x', xcept=list(train))
    except ValueError:
        ctx.count('rejected')
    else:
        ctx.check(False, 'not-rejected', '%s: no device left' % what)


def run_case(case, ctx):
    rng = rng_for(ID, *case)
    if case[0] == 's':
        for _ in range(5):
            stack_case(rng, ctx)
        for _ in range(2):
            natural(rng, ctx)
        return
    from karabo_data import RunDirectory, stack_detector_data
    r = det.gen_det_run(rng, max_trains=3, same_pulses=True, gain2=rng.random() < .3)
    if not r.sources:
        raise Skip
    d = ctx.dir('run')
    r.write(d)
    run = open_run(r, d, rng)
    key = rng.choice(['image.data', 'image.data', 'image.cellId' if r.raw else 'image.gain'])
    for tid, data in run.select('*/DET/*', key).trains():
        mods = {m: s for m, s in det.modules_of(r).items()}
        arrays = {m: r.sources[s].data[key][tid] for m, s in mods.items() if det.has(r, s, tid)}
        if not arrays or not data:
            continue
        a0 = next(iter(arrays.values()))
        nd = a0.ndim
        axis = rng.randrange(-nd - 1, nd + 1)
        fill = np.nan if a0.dtype.kind == 'f' else 0
        shape = a0.shape
        if any(a.shape != shape for a in arrays.values()) or any(v.get(key) is not None and v[key].ndim != nd for v in data.values()):
            # a single entry is given without its first dimension
            arrays = {m: a[0] if len(a) == 1 else a for m, a in arrays.items()}
            a0 = next(iter(arrays.values()))
            shape = a0.shape
            nd = a0.ndim
            axis = rng.randrange(-nd - 1, nd + 1)
        ref = reference(arrays, 16, shape, a0.dtype, fill, axis)
        got = stack_detector_data(data, key, axis=axis)
        ctx.count('from_run')
        ctx.check(model.same(np.ascontiguousarray(got), ref), 'from-run', '%s train %d axis %d: %r instead of %r' % (key, tid, axis, got.shape, ref.shape), run=r.describe())
        view_check(rng, ctx, stack_detector_data(data, key, axis=axis, real_array=False), ref, axis % (nd + 1), '%s of train %d' % (key, tid))
        ctx.seen('run', shape, axis, tuple(sorted(arrays)))
