"""Random operations on collections, with results normalised for comparison."""
import contextlib, os
import h5py
import numpy as np
from . import det, model
from .util import quiet, random_subset


class Unknown(BaseException):
    pass


# -- collections as recipes ---------------------------------------------------

def build(rec, r, d):
    """Make the collection a recipe describes, from newly opened files"""
    from karabo_data import RunDirectory, H5File, by_id, by_index
    kind = rec[0]
    if kind == 'run':
        return RunDirectory(d)
    if kind == 'include':
        return RunDirectory(d, include=rec[1])
    if kind == 'file':
        return H5File(os.path.join(d, rec[1]))
    return derive(rec, [build(x, r, d) for x in rec[1]], r)


def derive(rec, bases, r):
    """Apply the last step of a recipe to already made collections"""
    from karabo_data import by_id, by_index
    kind, _, arg = rec
    dc = bases[0]
    if kind == 'union':
        return dc.union(*bases[1:])
    if kind in ('select', 'deselect'):
        f = getattr(dc, kind)
        if isinstance(arg, str):
            return f(arg)
        if isinstance(arg, dict):
            return f({s: set(k) for s, k in arg.items()})
        return f(list(arg))
    if kind == 'trains':
        how, val = arg
        by = by_id if how.startswith('id') else by_index
        if how.endswith('slice'):
            return dc.select_trains(by[slice(*val)])
        return dc.select_trains(by[list(val)] if how.endswith('list') else by[np.array(val, 'u8')])
    raise Unknown(kind)


def depth(rec):
    return 0 if rec[0] in ('run', 'include', 'file') else 1 + max(depth(x) for x in rec[1])


def choose_root(rng, r):
    k = rng.choice(['run', 'run', 'file', 'include', 'union'])
    if k == 'file':
        return ('file', rng.choice(r.files).name)
    if k == 'include':
        f = rng.choice(r.files).name
        return ('include', rng.choice([f, f[:-9] + '*', '*S0000[01].h5', '*']))
    if k == 'union' and len(r.files) > 1:
        fs = rng.sample(r.files, rng.randint(2, min(4, len(r.files))))
        return ('union', tuple(('file', f.name) for f in fs), None)
    return ('run',)


def choose_step(rng, dc, rec, others):
    """A recipe deriving from the collection dc (of recipe rec)"""
    k = rng.choice(['select', 'select', 'deselect', 'trains', 'trains', 'union'])
    srcs = sorted(dc.all_sources)
    tids = [int(t) for t in dc.train_ids]
    if k == 'union' and others:
        return ('union', (rec,) + tuple(rng.sample(others, rng.randint(1, min(2, len(others))))), None)
    if k == 'trains' and tids:
        how = rng.choice(['id-list', 'id-arr', 'index-list', 'id-slice', 'index-slice'])
        if how == 'id-slice':
            a, b = sorted((rng.choice(tids), rng.choice(tids)))
            val = (rng.choice([None, a]), rng.choice([None, b + 1]), rng.choice([None, None, 2]))
        elif how == 'index-slice':
            val = (rng.choice([None, 0, 1, -2]), rng.choice([None, len(tids), -1]), rng.choice([None, None, 2]))
        else:
            val = random_subset(rng, tids)
            if how.startswith('index'):
                val = [tids.index(t) for t in val]
            val = tuple(val)
        return ('trains', (rec,), (how, val))
    if not srcs:
        return ('trains', (rec,), ('index-slice', (None, None, None)))
    sel = rng.sample(srcs, rng.randint(1, min(3, len(srcs))))
    form = rng.choice(['dict', 'dict', 'list', 'glob'])
    if form == 'dict':
        arg = {s: set(rng.sample(sorted(dc.keys_for_source(s)), rng.randint(0, len(dc.keys_for_source(s))))) for s in sel}
    elif form == 'list':
        arg = [(s, rng.choice(['*', '*', rng.choice(sorted(dc.keys_for_source(s)) or ['*'])])) for s in sel]
    else:
        arg = rng.choice([sel[0], sel[0][:4] + '*', '*', '*/*'])
    return ('select' if k != 'deselect' or len(srcs) < 2 else 'deselect', (rec,), arg)


# -- results --------------------------------------------------------------

def norm(x):
    """A deep copy of a result in comparable form"""
    import pandas as pd, xarray as xr
    if isinstance(x, np.ndarray):
        return ('arr', x.dtype.str, x.shape, x.tolist() if x.dtype.hasobject else x.tobytes())
    if isinstance(x, np.generic):
        return ('scalar', x.dtype.str, x.tobytes())
    if isinstance(x, xr.DataArray):
        return ('xarr', norm(x.values), x.dims, tuple((n, norm(np.asarray(c))) for n, c in sorted(x.coords.items())))
    if isinstance(x, pd.Series):
        return ('ser', x.name, norm(x.values), norm_index(x.index))
    if isinstance(x, pd.DataFrame):
        return ('df', tuple(map(str, x.columns)), tuple(norm(x[c].values) for c in x.columns), norm_index(x.index))
    if isinstance(x, dict):
        return ('dict', tuple(sorted((str(k), norm(v)) for k, v in x.items())))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(str, x))))
    if isinstance(x, (tuple, list)):
        return (type(x).__name__, tuple(norm(i) for i in x))
    if isinstance(x, (str, bytes, int, float, bool, type(None))):
        return (type(x).__name__, repr(x))
    raise TypeError(type(x))


def norm_index(ix):
    return (tuple(map(str, ix.names)), tuple(repr(tuple(map(int, t)) if isinstance(t, tuple) else int(t)) for t in ix))


def digest_h5(path):
    """Contents of a written file (with virtual datasets resolved)"""
    out = {}
    with h5py.File(path, 'r') as f:
        def visit(name, o):
            if isinstance(o, h5py.Dataset) and not name.startswith('METADATA/') :
                out[name] = norm(o[()] if o.shape is not None else None)
        f.visititems(visit)
    return ('h5', tuple(sorted(out.items())))


def spoil(x):
    """Modify a returned result as a user may"""
    import pandas as pd, xarray as xr
    if isinstance(x, xr.DataArray):
        spoil(x.values)
        spoil(np.asarray(x.coords[x.dims[0]]) if x.dims and x.dims[0] in x.coords else np.zeros(0))
    elif isinstance(x, pd.Series):
        if len(x):
            try:
                x[:] = 0
                x.values[:] = 3
            except (ValueError, TypeError):
                pass
    elif isinstance(x, pd.DataFrame):
        for c in list(x.columns)[:3]:
            x[c] = 0
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            if x.dtype.hasobject:
                x[...] = None
            else:
                x.reshape(-1).view('u1')[...] = 0xa5 if x.flags.c_contiguous else 0
    elif isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
        x.clear()
    elif isinstance(x, set):
        x.clear()
        x.add('spoilt')
    elif isinstance(x, (tuple, list)):
        for i in x:
            spoil(i)


# -- operations -----------------------------------------------------------

def choose_op(rng, r, dc, outs=True):
    """An operation with all its arguments, as a tuple"""
    srcs = sorted(dc.all_sources)
    tids = [int(t) for t in dc.train_ids]
    pool = ['trains', 'trains_all', 'info', 'ids', 'sources']
    if srcs:
        pool += ['array', 'array', 'array', 'dask', 'series', 'series', 'counts', 'counts', 'keys', 'frame']
        if outs:
            pool += ['write', 'write_virtual', 'vds']
    if tids:
        pool += ['train', 'train', 'train', 'train_index', 'train_info']
        if outs:
            pool += ['badtrain']
    comps = [c for c in det.CLS if any(det.gen.DETS[c][0].split('_')[0] in s and '/DET/' in s and 'CH' in s for s in srcs)]
    if comps:
        pool += ['det_array', 'det_array', 'det_trains', 'det_info'] + (['cxi'] if outs else [])
    op = rng.choice(pool)
    if op in ('array', 'dask', 'series', 'counts', 'vds'):
        s = rng.choice(srcs)
        ks = sorted(dc.keys_for_source(s))
        if not ks:
            return ('keys', s)
        k = rng.choice(ks)
        if op == 'array':
            return ('array', s, k, rng.choice([None, None, None, (0, 1), (0, 2)]))
        return (op, s, k)
    if op == 'keys':
        return ('keys', rng.choice(srcs))
    if op == 'frame':
        return ('frame', rng.choice([None, rng.choice(srcs)]), rng.random() < .3)
    if op in ('train', 'train_info'):
        return (op, rng.choice(tids))
    if op == 'train_index':
        return (op, rng.randrange(-len(tids), len(tids)))
    if op == 'badtrain':
        return ('train', max(tids) + 3)
    if op.startswith('det') or op == 'cxi':
        c = rng.choice(comps)
        if op == 'det_info':
            s = [s for s in srcs if det.gen.DETS[c][0].split('_')[0] in s and '/DET/' in s]
            return ('det_info', rng.choice(s))
        mm = rng.choice([1, 1, 2])
        return (op, c, mm, rng.choice(['image.data', 'image.data', 'image.cellId', 'image.gain', 'header.pulseCount']))
    return (op,)


def apply(dc, op, tmp, serial=0, capture=True):
    """Result of an operation: (result, normalised)"""
    import karabo_data as kd
    from karabo_data import by_index
    from karabo_data.components import AGIPD1M, LPD1M, DSSC1M
    n = op[0]
    with (quiet() if capture else contextlib.nullcontext((None, None))) as (out, err):
        if n == 'array':
            kw = {'roi': by_index[op[3][0]:op[3][1]]} if op[3] else {}
            x = dc.get_array(op[1], op[2], **kw)
        elif n == 'dask':
            x = dc.get_dask_array(op[1], op[2]).compute()
        elif n == 'series':
            x = dc.get_series(op[1], op[2])
        elif n == 'counts':
            x = dc.get_data_counts(op[1], op[2])
        elif n == 'keys':
            x = dc.keys_for_source(op[1])
        elif n == 'frame':
            x = dc.get_dataframe(fields=[(op[1] or '*', '*')], timestamps=op[2])
            x = x[sorted(x.columns)]
        elif n == 'train':
            x = dc.train_from_id(op[1])
        elif n == 'train_index':
            x = dc.train_from_index(op[1])
        elif n == 'trains':
            x = list(dc.trains())
        elif n == 'trains_all':
            x = list(dc.trains(require_all=True))
        elif n == 'ids':
            x = [int(t) for t in dc.train_ids]
        elif n == 'sources':
            x = (dc.all_sources, dc.control_sources, dc.instrument_sources, dc.detector_sources)
        elif n == 'info':
            dc.info()
            x = out.getvalue()
        elif n == 'train_info':
            dc.train_info(op[1])
            x = out.getvalue()
        elif n in ('write', 'write_virtual'):
            p = os.path.join(tmp, '%s%d.h5' % (n, serial))
            getattr(dc, n)(p)
            return None, digest_h5(p)
        elif n == 'vds':
            p = os.path.join(tmp, 'vds%d.h5' % serial)
            ds = dc.get_virtual_dataset(op[1], op[2], filename=p)
            x = ds[()]
            ds.file.close()
        elif n == 'det_info':
            x = dc.detector_info(op[1])
            x = {k: tuple(v) if isinstance(v, tuple) else int(v) for k, v in x.items()}
        else:
            cls = {'AGIPD': AGIPD1M, 'LPD': LPD1M, 'DSSC': DSSC1M}[op[1]]
            c = cls(dc, min_modules=op[2])
            if n == 'det_array':
                x = c.get_array(op[3])
            elif n == 'det_trains':
                x = [(t, dd) for t, dd in c.trains()]
            elif n == 'cxi':
                p = os.path.join(tmp, 'cxi%d.cxi' % serial)
                c.write_virtual_cxi(p)
                return None, digest_h5(p)
            else:
                raise Unknown(op)
        return x, norm(x)


def outcome(dc, op, tmp, serial=0, capture=True):
    """Like apply, with exceptions as results"""
    try:
        return apply(dc, op, tmp, serial, capture)
    except Unknown:
        raise
    except Exception as e:
        return None, ('raises', type(e).__name__)   # which field fails first may vary
