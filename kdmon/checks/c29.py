"""C29: what is not there is refused by name, and never replaced by something else."""
import os
import h5py
import numpy as np
from ..core import Skip
from ..util import *
from .. import gen

ID = 'C29'
RULE = ('random collections (whole runs, selections of sources, keys and trains, unions) asked through every interface for sources, keys and trains '
        'which are not in them: parts and extensions of real names, other spelling, names of other sources, dropped ones, IDs in gaps, '
        'next to the first and last and dropped ones; then used again; and fields whose files have different types or shapes, read through '
        'every interface; distinct by interface, kind of name and collection')
ASSUME = ['values of differing types may be converted to a common type which holds them all',
          'get_dataframe and trains() with patterns follow select()']
cases = std_cases({'quick': 340, 'thorough': 6000})
MINIMUM = {'source_refused': 1500, 'key_refused': 1500, 'train_refused': 800, 'reads_after': 800, 'mixed_exact': 150, 'mixed_refused': 150}


def bad_sources(rng, r, dc, dropped):
    have = set(dc.all_sources)
    out = []
    for s in sorted(have)[:4]:
        out += [('prefix', s[:-1]), ('longer', s + '1'), ('case', s.swapcase()), ('parent', s.rsplit('/', 1)[0]), ('channel', s.split(':')[0]),
                ('group', s + '/' + rng.choice(['image', 'data', 'x'])), ('slash', s + '/'), ('root', rng.choice(['CONTROL/', 'INSTRUMENT/']) + s),
                ('suffix', s[1:]), ('space', s + ' '), ('wild', s[:-1] + '*')]
    out += [('dropped', s) for s in dropped]
    out += [('other', 'NOT/A/SOURCE'), ('empty', ''), ('wild', '*')]
    return [(k, s) for k, s in out if s not in have]


def bad_keys(rng, r, dc, source):
    have = set(dc.keys_for_source(source))
    out = []
    for k in sorted(have)[:4]:
        out += [('prefix', k[:-1]), ('longer', k + '1'), ('case', k.swapcase()), ('group', k.split('.')[0]), ('last', k.split('.')[-1]),
                ('slashes', k.replace('.', '/')), ('dot', k + '.'), ('deeper', k + '.value'), ('wild', k[:-1] + '*')]
    out += [('dropped', k) for k in r.sources[source].keys]
    out += [('other', k) for s in r.sources for k in r.sources[s].keys]
    out += [('empty', ''), ('wild', '*'), ('other', 'not.a.key')]
    return [(c, k) for c, k in out if k not in have and not (c != 'dropped' and k in r.sources[source].keys)]


def interfaces(outdir):
    from karabo_data import by_index
    return {
        'array': lambda d, s, k: d.get_array(s, k),
        'array-roi': lambda d, s, k: d.get_array(s, k, roi=by_index[...]),
        'series': lambda d, s, k: d.get_series(s, k),
        'dask': lambda d, s, k: d.get_dask_array(s, k),
        'counts': lambda d, s, k: d.get_data_counts(s, k),
        'virtual': lambda d, s, k: d.get_virtual_dataset(s, k, os.path.join(outdir, 'v.h5')),
    }


SOURCE_ONLY = {
    'select-dict': lambda d, s: d.select({s: set()}),
    'select-dict-key': lambda d, s: d.select({s: {'x'}}),
    'deselect-dict': lambda d, s: d.deselect({s: set()}),
    'trains-dict': lambda d, s: next(d.trains(devices={s: set()})),
    'train-dict': lambda d, s: d.train_from_index(0, devices={s: set()}),
    'dataframe-dict': lambda d, s: d.get_dataframe(fields={s: set()}),
    'keys': lambda d, s: d.keys_for_source(s),
    'detector': lambda d, s: d.detector_info(s),
}


def refused(ctx, cls, want, name, what, call):
    try:
        x = call()
    except cls as e:
        ok = want(e) and (not name or name in str(e))
        ctx.check(ok, 'refusal-unclear', '%s is refused with %s: %s' % (what, type(e).__name__, e))
        return True
    except (KeyError, ValueError, IndexError) as e:
        ctx.violation('other-error', '%s fails with %r' % (what, e))
        return False
    ctx.violation('not-refused', '%s gives %s' % (what, repr(x)[:200]))
    return False


def run_case(case, ctx):
    rng = rng_for(ID, *case)
    if case[1] % 3 == 2:
        return mixed(rng, ctx)
    from karabo_data import SourceNameError, PropertyNameError, by_id, by_index
    from karabo_data.exceptions import TrainIDError
    r, d = make_run(rng, ctx, max_trains=6, empty_file=0.05)
    outdir = ctx.dir('out')
    dc = open_run(r, d, rng)
    cur = {s: set(v.keys) for s, v in r.sources.items()}
    trains = list(r.trains)
    steps = []
    for _ in range(rng.randint(0, 3)):
        op = rng.choice(['sources', 'keys', 'desource', 'dekeys', 'trains', 'union'])
        if op in ('sources', 'desource') and len(cur) > 1:
            keep = random_subset(rng, sorted(cur))
            if op == 'sources':
                dc = dc.select({s: set() for s in keep})
            elif len(keep) < len(cur):
                dc = dc.deselect([(s, '*') for s in sorted(cur) if s not in keep])
            else:
                continue
            cur = {s: cur[s] for s in keep}
        elif op in ('keys', 'dekeys') and cur:
            s = rng.choice(sorted(cur))
            ks = set(random_subset(rng, sorted(cur[s])))
            if op == 'keys':
                dc = dc.select({x: (ks if x == s else set()) for x in cur})
                cur[s] = ks
            elif ks != cur[s]:
                dc = dc.deselect({s: ks})
                cur[s] = cur[s] - ks
        elif op == 'trains' and trains:
            sub = random_subset(rng, trains)
            dc = select_trains(rng, dc, sub)
            trains = sub
            cur = {s: k for s, k in cur.items() if s in dc.all_sources}
        elif op == 'union':
            if not cur:
                continue
            part = dc.select({s: set() for s in random_subset(rng, sorted(cur))})
            dc = rng.choice([lambda: part.union(dc), lambda: dc.union(part), lambda: dc.union(dc)])()
        steps.append(op)
    if not cur or not trains:
        raise Skip
    cur = {s: k for s, k in cur.items() if s in dc.all_sources}
    ctx.sample((r.describe(), steps))
    ctx.check({s: set(dc.keys_for_source(s)) for s in dc.all_sources} == cur, 'contents', 'after %r there are %r instead of %r' % (
        steps, {s: dc.keys_for_source(s) for s in dc.all_sources}, cur))
    state = '+'.join(sorted(set(steps)))
    what0 = 'in a collection after %r: ' % steps
    calls = interfaces(outdir)

    dropped = sorted(set(r.sources) - set(cur))
    bs = bad_sources(rng, r, dc, dropped)
    for kind, s in rng.sample(bs, min(len(bs), 8)) + [('dropped', x) for x in dropped[:2]]:
        k = rng.choice(sorted(rng.choice(sorted(r.sources.items()))[1].keys) + ['x.value'])
        if s in r.sources:
            k = rng.choice(sorted(r.sources[s].keys))
        for name in rng.sample(sorted(calls), 3):
            refused(ctx, SourceNameError, lambda e: e.source == s, repr(s), what0 + '%s of source %r (%s)' % (name, s, kind), lambda: calls[name](dc, s, k))
            ctx.count('source_refused')
            ctx.seen('source', name, kind, state)
        name = rng.choice(sorted(SOURCE_ONLY))
        refused(ctx, SourceNameError, lambda e: e.source == s, repr(s), what0 + '%s with source %r (%s)' % (name, s, kind), lambda: SOURCE_ONLY[name](dc, s))
        ctx.count('source_refused')
        ctx.seen('source', name, kind, state)
    for s in rng.sample(sorted(cur), min(len(cur), 3)):
        bk = bad_keys(rng, r, dc, s)
        gone = [('dropped', k) for k in r.sources[s].keys if k not in cur[s]]
        for kind, k in rng.sample(bk, min(len(bk), 6)) + gone[:2]:
            for name in rng.sample(sorted(calls), 3):
                refused(ctx, PropertyNameError, lambda e: (e.source, e.prop) == (s, k), repr(k), what0 + '%s of %s, key %r (%s)' % (name, s, k, kind),
                        lambda: calls[name](dc, s, k))
                ctx.count('key_refused')
                ctx.seen('key', name, kind, state)
    n = len(trains)
    ids = [('before', trains[0] - 1), ('after', trains[-1] + 1), ('zero', 0), ('negative', -1), ('negative', -trains[0]), ('position', 1), ('last', n - 1), ('huge', 1 << 63)]
    ids += [('gap', t + 1) for t in trains] + [('dropped', t) for t in r.trains] + [('float', trains[0] + .5)] * (trains[0] < 1 << 40)
    ids = [(c, t) for c, t in ids if t not in trains]
    for c, t in rng.sample(ids, min(len(ids), 5)):
        for name, f in rng.sample([('id', lambda: dc.train_from_id(t)), ('id-devices', lambda: dc.train_from_id(t, devices=[('*', '*')])),
                                   ('info', lambda: dc.train_info(t)), ('ids', lambda: dc.select_trains(by_id[[t]]))], 2):
            if name == 'ids' and (t < 0 or t != int(t)):
                continue
            refused(ctx, TrainIDError if name[:2] == 'id' and name != 'ids' else ValueError, lambda e: getattr(e, 'train_id', t) == t,
                    str(t) if name != 'ids' else '', what0 + '%s of train %r (%s) of %r' % (name, t, c, trains), f)
            ctx.count('train_refused')
            ctx.seen('train', name, c, state)
    for i in rng.sample([n, n + 1, n + 50, -n - 1, -n - 7], 2):
        for name, f in [('index', lambda: dc.train_from_index(i)), ('indexes', lambda: dc.select_trains(by_index[[0, i]]))]:
            refused(ctx, IndexError, lambda e: True, '', what0 + '%s of position %d of %d trains' % (name, i, n), f)
            ctx.count('train_refused')
            ctx.seen('position', name, i - n if i > 0 else i + n)
    # all of this leaves the collection in order
    view = model.View(r, trains)
    for s in sorted(cur):
        for k in sorted(cur[s])[:2]:
            exp, tids = view.array(s, k)
            ctx.count('reads_after')
            ctx.check(model.same(dc.get_array(s, k).values, exp), 'read-after', what0 + '%s %s is read wrong after refused requests' % (s, k))
    ctx.check([int(t) for t in dc.train_ids] == trains and {s: set(dc.keys_for_source(s)) for s in dc.all_sources} == cur, 'state-after',
              what0 + 'refused requests changed it')


TYPES = ['u1', 'i2', '<u2', '>u2', 'i4', 'f4', 'f8', '>f8', 'i8', 'u4']


def mixed(rng, ctx):
    """One field, of another type or shape in some files"""
    from karabo_data import RunDirectory, by_index
    n = rng.randint(2, 4)
    vary = rng.choice(['type', 'type', 'type', 'shape', 'both'])
    kind = rng.choice('CI')
    source, key = ('A/B/C', 'x.value') if kind == 'C' else ('A/B/C:out', 'data.x')
    path = ('CONTROL/' if kind == 'C' else 'INSTRUMENT/') + source + '/' + key.replace('.', '/')
    d, out = ctx.dir('run'), ctx.dir('out')
    base = rng.choice(TYPES)
    shape = rng.choice([(), (), (3,), (2, 2)])
    files, tid = [], rng.choice([10, 100000])
    odd = rng.randrange(n)
    wide = rng.random() < .4      # numbers which the common type of dask and pandas may not hold
    r = gen.Run()
    for i in range(n):
        dt, sh = base, shape
        if i == odd:
            if vary != 'shape':
                dt = rng.choice([t for t in TYPES + [np.dtype(base).newbyteorder('S').str] * 3 if np.dtype(t) != np.dtype(base)])
            if vary != 'type':
                sh = rng.choice([x for x in [(), (1,), (3,), (2,), (2, 2), (4, 2), (1, 3), (2, 2, 1), (3, 1)] if x != shape])
        tr = list(range(tid, tid + rng.randint(1, 4)))
        tid = tr[-1] + rng.randint(1, 3)
        counts = [1 if kind == 'C' else rng.randint(0, 3) for _ in tr]
        total = sum(counts)
        info = np.iinfo(dt) if np.dtype(dt).kind in 'iu' else None
        top = 64 if wide else 40
        lo, hi = (max(int(info.min), -2**top), min(int(info.max), 2**top)) if info else (-2**20, 2**20)
        vals = np.array([rng.choice([lo, hi, rng.randint(lo, hi)]) for _ in range(total * int(np.prod(sh)))], dtype=dt).reshape((total,) + sh)
        if not info:
            vals = (vals + np.array(.25, dt)).astype(dt)
        with h5py.File(os.path.join(d, 'RAW-R0001-DA01-S%05d.h5' % i), 'w') as f:
            f['METADATA/dataSourceId'] = np.array([(path.split('/x')[0] if kind == 'I' else 'CONTROL/' + source).encode()])
            f['INDEX/trainId'] = np.array(tr, 'u8')
            ip = 'INDEX/' + source + ('/data' if kind == 'I' else '')
            f[ip + '/first'] = np.concatenate([[0], np.cumsum(counts)[:-1]]).astype('u8')
            f[ip + '/count'] = np.array(counts, 'u8')
            f[path] = vals
        files.append((tr, counts, vals))
    ids = [t for tr, c, v in files for t, k in zip(tr, c) for _ in range(k)]
    entries = [v[i] for tr, c, v in files for i in range(len(v))]
    dc = RunDirectory(d)
    what = '%s %s of %s' % (source, key, [(v.dtype.str, v.shape) for _, _, v in files])

    def exact(got, labels=None):
        got = np.asarray(got)
        if len(got) != len(entries) or (labels is not None and [int(t) for t in labels] != ids):
            return False
        return all(g.shape == e.shape and g.tolist() == e.tolist() for g, e in zip(got, entries))

    def judge(name, f):
        try:
            with quiet():
                got, labels = f()
        except Exception as e:
            ctx.count('mixed_refused')
            ctx.check(len({(v.dtype, v.shape[1:]) for _, _, v in files}) > 1, 'refused-equal', '%s: %s fails with %r' % (what, name, e))
            return
        ctx.count('mixed_exact')
        ctx.seen('mixed', name, vary, base, kind)
        ctx.check(exact(got, labels), 'mixed-values', '%s: %s gives %s %r instead of refusing, or of %r' % (
            what, name, getattr(got, 'dtype', ''), np.asarray(got).tolist(), [e.tolist() for e in entries]))

    def arr():
        a = dc.get_array(source, key)
        return a.values, a.coords['trainId'].values

    def roi():
        a = dc.get_array(source, key, roi=by_index[...])
        return a.values, a.coords['trainId'].values

    def ser():
        s = dc.get_series(source, key)
        return s.values, [i[0] if isinstance(i, tuple) else i for i in s.index]

    def written(m, name):
        p = os.path.join(out, name)
        getattr(dc, m)(p)
        with h5py.File(p, 'r') as f:
            return f[path][:], None

    judge('get_array', arr)
    judge('get_array with a region', roi)
    if not wide:
        judge('get_dask_array', lambda: (dc.get_dask_array(source, key).compute(), None))
    judge('get_virtual_dataset', lambda: (dc.get_virtual_dataset(source, key, os.path.join(out, 'vds.h5'))[:], None))
    if not wide and not any(v.ndim > 1 for _, _, v in files) and all(x <= 1 for _, c, _ in files for x in c):
        judge('get_series', ser)
    judge('write', lambda: written('write', 'w.h5'))
    judge('write_virtual', lambda: written('write_virtual', 'wv.h5'))
    # train by train, every entry has the type of its file
    for tr, c, v in files:
        pos = 0
        for t, k in zip(tr, c):
            _, data = dc.train_from_id(t)
            got = data[source].get(key)
            if k:
                e = v[pos] if k == 1 else v[pos:pos + k]
                g = np.asarray(got)
                ctx.check(g.dtype.newbyteorder('=') == v.dtype.newbyteorder('=') and g.shape == e.shape and g.tolist() == e.tolist(), 'mixed-train',
                          '%s: train %d gives %r instead of %r' % (what, t, got, e))
            else:
                ctx.check(got is None, 'mixed-train', '%s: train %d has %r but nothing is stored' % (what, t, got))
            pos += k
        ctx.count('mixed_trains', len(tr))
