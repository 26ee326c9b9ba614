"""Generator of European XFEL runs with in-memory ground truth.

Everything is derived from a random.Random; files are written with plain h5py
so that nothing of the code under test takes part in making the truth.
"""
import os, random
import h5py
import numpy as np

VB = h5py.special_dtype(vlen=bytes)


class Key:
    def __init__(self, name, dtype, shape=(), raw_extra=False):
        self.name, self.dtype, self.shape = name, dtype, tuple(shape)

    @property
    def group(self):
        return self.name.partition('.')[0]

    def __repr__(self):
        return '%s:%s%s' % (self.name, self.dtype, list(self.shape))


class Source:
    def __init__(self, name, kind, keys, pulse_groups=()):
        self.name, self.kind = name, kind          # kind 'C' or 'I'
        self.keys = {k.name: k for k in keys}
        self.pulse_groups = set(pulse_groups)      # groups with pulseId
        self.counts = {}    # group -> {tid: n}   ('' for control)
        self.data = {}      # key -> {tid: array (n, *shape)}

    @property
    def groups(self):
        return [''] if self.kind == 'C' else sorted({k.group for k in self.keys.values()})

    def group_of(self, key):
        return '' if self.kind == 'C' else key.partition('.')[0]

    def count(self, key, tid):
        return self.counts[self.group_of(key)].get(tid, 0)

    def tids(self):
        """trains for which some file has this source"""
        return sorted(next(iter(self.counts.values())))


class FileSpec:
    def __init__(self, name, trains, sources, version='0.5', index='count',
                 pad=0, data_pad=0, bad_status_last=False):
        self.name, self.trains, self.sources = name, list(trains), list(sources)
        self.version, self.index, self.pad, self.data_pad = version, index, pad, data_pad
        self.bad_status_last = bad_status_last


class Run:
    def __init__(self):
        self.sources = {}
        self.files = []

    @property
    def trains(self):
        return sorted(set().union(*[f.trains for f in self.files]))

    def file_of(self, source, tid):
        for f in self.files:
            if source in f.sources and tid in f.trains:
                return f

    def describe(self):
        return dict(files=[(f.name, len(f.trains), f.trains[:3], f.version, f.index, f.pad,
                            f.data_pad, f.sources) for f in self.files],
                    sources={s.name: [repr(k) for k in s.keys.values()] for s in self.sources.values()})

    def write(self, d):
        for f in self.files:
            self.write_file(f, os.path.join(d, f.name))

    def write_file(self, f, path):
        n = len(f.trains)
        with h5py.File(path, 'w') as h:
            tid = np.zeros(n + f.pad, 'u8')
            tid[:n] = f.trains
            h['INDEX/trainId'] = tid
            ds_ids = []
            for sn in f.sources:
                s = self.sources[sn]
                cat = 'CONTROL' if s.kind == 'C' else 'INSTRUMENT'
                for g in s.groups:
                    ds_ids.append('%s/%s%s' % (cat, sn, '/' + g if g else ''))
                    cnt = np.zeros(n + f.pad, 'u8')
                    cnt[:n] = [s.counts[g].get(t, 0) for t in f.trains]
                    first = np.zeros(n + f.pad, 'u8')
                    first[1:] = np.cumsum(cnt)[:-1]
                    first[n:] = 0
                    ip = 'INDEX/%s/%s' % (sn, g)
                    h[ip + '/first'] = first
                    if f.index == 'count':
                        h[ip + '/count'] = cnt
                    else:
                        last = first + cnt
                        last = np.where(cnt > 0, last - np.uint64(1),
                                        first if f.bad_status_last else last - np.uint64(1))
                        h[ip + '/last'] = last.astype('u8')
                        h[ip + '/status'] = (cnt > 0).astype('u4')
                    for k in s.keys.values():
                        if s.group_of(k.name) != g:
                            continue
                        self._write_ds(h, '%s/%s/%s' % (cat, sn, k.name.replace('.', '/')),
                                       s, k, f)
            mp = 'METADATA/dataSources/' if f.version != '0.5' else 'METADATA/'
            if f.version != '0.5':
                h.create_dataset('METADATA/dataFormatVersion', (1,), dtype=VB)[0] = f.version.encode()
            npad = f.pad % 3
            for nm, vals in (('dataSourceId', ds_ids),
                             ('root', [x.split('/', 1)[0] for x in ds_ids]),
                             ('deviceId', [x.split('/', 1)[1] for x in ds_ids])):
                d = h.create_dataset(mp + nm, (len(vals) + npad,), dtype=VB, maxshape=(None,))
                d[:] = [v.encode() for v in vals] + [b''] * npad
            if f.version != '0.5':
                h.create_dataset('METADATA/creationDate', (1,), dtype=VB)[0] = b'20190101T000000Z'

    def _write_ds(self, h, path, s, k, f):
        parts = [s.data[k.name][t] for t in f.trains if t in s.data[k.name]]
        if k.dtype == 'str':
            vals = np.concatenate(parts) if parts else np.zeros((0,), object)
            d = h.create_dataset(path, (len(vals) + f.data_pad,) + k.shape, dtype=VB)
            if len(vals):
                d[:len(vals)] = vals
            return
        vals = np.concatenate(parts) if parts else np.zeros((0,) + k.shape, k.dtype)
        if f.data_pad:
            fill = np.zeros((f.data_pad,) + k.shape, k.dtype)
            if k.dtype != '?':
                fill[...] = garbage(k.dtype)
            vals = np.concatenate([vals, fill])
        chunks = None
        if vals.size and (len(k.name) & 1):
            chunks = (max(1, min(3, vals.shape[0])),) + k.shape
        h.create_dataset(path, data=vals, chunks=chunks)


def garbage(dt):
    dt = np.dtype(dt)
    if dt.kind in 'ui':
        return np.iinfo(dt).max
    if dt.kind == 'S':
        return b'GARBAGE'
    return -9.0e9


def values(rng, k, n):
    """n distinct entries for key k"""
    size = int(np.prod((n,) + k.shape, dtype=int))
    off = rng.randrange(1, 1 << 20)
    if k.dtype == 'str':
        v = np.empty(size, object)
        for i in range(size):
            v[i] = b'v%d' % (off + i)
        if size and rng.random() < .3:      # text which is easily lost or changed
            for x in (b'', b' lead', b'trail ', b' ', 'µ é'.encode(), b'Line\n', b'0', b'NaN'):
                v[rng.randrange(size)] = x
        return v.reshape((n,) + k.shape)
    dt = np.dtype(k.dtype)
    a = np.arange(off, off + size, dtype='i8')
    if dt.kind == 'f':
        v = (a * 0.5 + 0.25).astype(dt)
        if size > 3 and rng.random() < .15:
            v[rng.randrange(size)] = np.nan
            v[rng.randrange(size)] = np.inf
            v[rng.randrange(size)] = -0.0
    elif dt.kind == 'S':
        v = np.array([b'%d' % x for x in a], dt)
        if size and rng.random() < .3:
            for x in (b'', b' lead', b'trail ', b' ', 'µé'.encode(), b'a\0b', b'8 chars '):
                v[rng.randrange(size)] = x
    elif dt.kind == 'b':
        v = (a * 2654435761 >> 7) & 1 == 1
    elif dt.itemsize == 1:
        v = (a % 251).astype(dt)
    elif dt.itemsize == 2:
        v = (a % 32749).astype(dt)
    else:
        v = a.astype(dt)
        if rng.random() < .3:
            v = v * dt.type(-1) if dt.kind == 'i' else v + dt.type(np.iinfo(dt).max // 2)
    return v.reshape((n,) + k.shape).astype(dt)


CTRL = ['SA1_XTD2_XGM/DOOCS/MAIN', 'SPB_XTD9_XGM/DOOCS/MAIN', 'FXE_XAD_GEC/CAM/CAMERA',
        'SA3_XTD10_MCP/ADC/1', 'MID_EXP_SYS/MOTOR/X-1', 'SCS_RR_UTC/TSYS/TIMESERVER',
        'SA1_XTD2_XGM/DOOCS/MAIN2']
INST = ['SA1_XTD2_XGM/DOOCS/MAIN:output', 'SA3_XTD10_PES/ADC/1:network',
        'FXE_XAD_GEC/CAM/CAMERA:daqOutput', 'SCS_RR_UTC/TSYS/TIMESERVER:outputBunchPattern',
        'MID_DET/ADC/1:out', 'SPB_IRU_CAM/CAM/SIDEMIC:daqOutput', 'SA3_XTD10_PES/ADC/1:network2']
DTYPES = ['f4', 'f8', 'u1', 'u2', 'i2', 'i4', 'u4', 'i8', 'u8', 'S8', 'str', '?']
NUMT = ['f4', 'f8', 'u2', 'i4', 'u4', 'i8', 'u8']


def ctrl_source(rng, name):
    keys, used = [], set()
    for nm in rng.sample(['beamPosition.ixPos', 'beamPosition.iyPos', 'photonFlux', 'pressure.p1',
                          'state', 'actualPosition', 'spectrum', 'a.b.c.d', 'flags', 'mode',
                          'trigger.timestampOffset', 'clock.timestamp.drift', 'default.valueRange',
                          'readback.value.raw', 'values', 'setvalue', 'target.maxvalue'],
                         rng.randint(1, 5)):
        dt = rng.choice(DTYPES)
        shape = rng.choice([(), (), (), (3,), (2, 2)]) if dt != 'str' else ()
        if dt == 'S8' and shape:
            shape = ()
        if rng.random() < .85:
            keys.append(Key(nm + '.value', dt, shape))
            if rng.random() < .6:
                keys.append(Key(nm + '.timestamp', 'u8'))
        else:
            keys.append(Key(nm, dt, shape))
    if rng.random() < .2:
        # keys which look like parts of others
        names = {k.name for k in keys}
        for nm in ('ixPos', 'p1', 'pressure', 'beamPosition', 'a.b.c', 'd', 'clock'):
            if rng.random() < .4 and not names & {nm, nm + '.value'}:
                keys.append(Key(nm + '.value', rng.choice(NUMT)))
        if rng.random() < .3:
            keys.append(Key('value', rng.choice(NUMT)))
    return Source(name, 'C', keys)


def inst_source(rng, name, pulse=None):
    keys, pg = [], []
    for g in rng.sample(['data', 'digitizers', 'image', 'header', 'raw2', 'raw', 'data1'], rng.choice([1, 1, 2, 2, 3])):
        if pulse is not False and rng.random() < .3:
            # pulse-oriented group: (N, 1) datasets and pulse IDs
            pg.append(g)
            e = rng.choice([(1,), (1,), ()])    # corrected data has no extra dimension
            keys.append(Key(g + '.pulseId', 'u8', e))
            keys.append(Key(g + '.cellId', 'u2', e))
            if rng.random() < .6:
                keys.append(Key(g + '.val', rng.choice(['f4', 'i4', 'u8']), e))
            if rng.random() < .4:
                keys.append(Key(g + '.data', 'u2', e + (3, 2)))
            continue
        for nm in rng.sample(['x', 'intensityTD', 'ch.A.raw', 'trainId', 'pix', 'sub.pos', 'pos', 'raw'], rng.randint(1, 3)):
            dt = rng.choice(DTYPES)
            shape = rng.choice([(), (), (), (4,), (2, 3), (5, 1)]) if dt not in ('str', 'S8') else ()
            keys.append(Key(g + '.' + nm, dt, shape))
    return Source(name, 'I', keys, pg)


def gen_trains(rng, n, gaps=True):
    base = rng.choice([100, 10000, 142844490, 1 << 40, (1 << 62) + 12345])
    t, out = base, []
    for _ in range(n):
        out.append(t)
        t += 1 if (not gaps or rng.random() < .7) else rng.randint(2, 5)
        if gaps and rng.random() < .02:
            t += rng.choice([50, 255, 1 << 16, 10**7 + 3, 1 << 33])     # a long pause
    return out


def split_sorted(rng, xs, k):
    """Split xs into k consecutive non-empty parts (fewer if too short)"""
    k = max(1, min(k, len(xs)))
    cuts = sorted(rng.sample(range(1, len(xs)), k - 1)) if k > 1 else []
    cuts = [0] + cuts + [len(xs)]
    return [xs[a:b] for a, b in zip(cuts, cuts[1:])]


def fill_source(rng, s, trains, holes=0.25, multi=True, ctrl_holes=0.0, maxn=4, pulse_min2=True,
                forbid_multi_nonpulse=False):
    """Choose entry counts and data for the given trains"""
    for g in s.groups:
        c = s.counts.setdefault(g, {})
        if s.kind == 'C':
            for t in trains:
                c[t] = 0 if rng.random() < ctrl_holes else 1
        else:
            mode = rng.choice(['one', 'holes', 'fixed', 'vary', 'none'] if multi else ['one', 'holes'])
            if g in s.pulse_groups:
                mode = rng.choice(['fixed', 'vary', 'holes2'])
            elif forbid_multi_nonpulse:
                mode = rng.choice(['one', 'holes', 'holes', 'none'])
            k = rng.randint(2, maxn)
            if mode == 'none' and rng.random() < .7:
                mode = 'holes'
            for t in trains:
                c[t] = {'one': 1, 'holes': int(rng.random() > holes), 'fixed': k,
                        'vary': rng.randint(0, k), 'none': 0,
                        'holes2': k if rng.random() > holes else 0}[mode]
        for k in s.keys.values():
            if s.group_of(k.name) != g:
                continue
            d = s.data.setdefault(k.name, {})
            tot = sum(c[t] for t in trains)
            if k.name.endswith('.pulseId') and g in s.pulse_groups:
                step, st = rng.choice([1, 2, 7]), rng.randint(0, 3)
                for t in trains:
                    d[t] = (np.arange(c[t], dtype='u8') * step + st).reshape(-1, *k.shape)
                continue
            v = values(rng, k, tot)
            pos = 0
            for t in trains:
                d[t] = v[pos:pos + c[t]]
                pos += c[t]


def gen_run(rng, max_trains=10, n_agg=None, empty_file=0.08, ctrl_holes=False, aligned=None,
            pulse=None, prefix='RAW', overlap_pad=True, min_trains=1, forbid_multi_nonpulse=False,
            gaps=None, big=False):
    """A random run directory.

    big: tens of thousands of scalar entries per train
    """
    r = Run()
    n = rng.randint(min_trains, max_trains)
    trains = gen_trains(rng, n, gaps=rng.random() < .6 if gaps is None else gaps)
    n_agg = n_agg or rng.choice([1, 1, 2, 2, 3])
    ctrl = rng.sample(CTRL, rng.randint(0, 3))
    inst = rng.sample(INST, rng.randint(0 if ctrl else 1, 3))
    allsrc = ctrl + inst
    if rng.random() < .15:      # a source whose name differs from another's only by case
        nm = rng.choice(allsrc)
        allsrc.append(rng.choice([nm.lower(), nm[:-3] + nm[-3:].swapcase()]))
        if allsrc[-1] in allsrc[:-1]:
            allsrc.pop()
    rng.shuffle(allsrc)
    n_agg = min(n_agg, len(allsrc))
    groups = [allsrc[i::n_agg] for i in range(n_agg)]
    version = rng.choice(['0.5', '0.5', '1.0', '1.1', '1.2'])
    index = rng.choice(['count', 'count', 'status'])
    for a, names in enumerate(groups):
        if rng.random() < .55:
            at = trains
        else:
            at = [t for t in trains if rng.random() > .3] or [trains[0]]
            if rng.random() < .3 and len(at) > 2:   # contiguous window
                i = rng.randrange(len(at) - 1)
                at = at[i:rng.randint(i + 1, len(at))]
        nseq = rng.choice([1, 1, 2, 3])
        parts = split_sorted(rng, at, nseq)
        if nseq > 1 and len(at) >= nseq and rng.random() < .3:      # sequences of equal length
            q = len(at) // nseq
            parts = [at[i * q:(i + 1) * q] for i in range(nseq)]
            parts[-1] += at[nseq * q:]
        if rng.random() < empty_file:
            parts.insert(rng.randint(0, len(parts)), [])
        for nm in names:
            s = ctrl_source(rng, nm) if ':' not in nm else inst_source(rng, nm, pulse)
            if big:
                s.keys = {n: k for n, k in s.keys.items() if k.shape in ((), (1,)) and k.dtype in NUMT}
                s.pulse_groups &= {k.group for k in s.keys.values() if k.name.endswith('.pulseId')}
            if not s.keys:
                continue
            r.sources[nm] = s
            for p in parts:
                fill_source(rng, s, p, ctrl_holes=0.3 if ctrl_holes else 0,
                            forbid_multi_nonpulse=forbid_multi_nonpulse,
                            maxn=rng.choice([300, 15000, 40000]) if big else 4)
        names = [nm for nm in names if nm in r.sources]
        if not names:
            continue
        order = list(range(len(parts)))
        if rng.random() < .1:
            rng.shuffle(order)      # sequence numbers need not follow train order
        mixed = rng.random() < .15
        for i, p in zip(order, parts):
            f = FileSpec('%s-R0001-DA%02d-S%05d.h5' % (prefix, a + 1, i), p, names,
                         version if not mixed else rng.choice(['0.5', '0.5', '1.0', '1.1', '1.2']),
                         index if not mixed else rng.choice(['count', 'status']),
                         pad=rng.choice([0, 0, 3, 32]), data_pad=rng.choice([0, 0, 0, 2]),
                         bad_status_last=rng.random() < .3)
            r.files.append(f)
    return r


# -- detector runs ----------------------------------------------------------

DETS = {'AGIPD': ('SPB_DET_AGIPD1M-1', (512, 128)), 'LPD': ('FXE_DET_LPD1M-1', (256, 256)),
        'DSSC': ('SCS_DET_DSSC1M-1', (128, 512))}


def det_source(name, raw, img, mask=True, gain2=False, image_dtype=None, extra1=True):
    e = (1,) if raw and extra1 else ()
    keys = [Key('image.pulseId', 'u8', e), Key('image.cellId', 'u2', e), Key('image.trainId', 'u8', e)]
    if raw:
        keys.append(Key('image.data', image_dtype or 'u2', ((2,) if gain2 else (1,)) + img))
        keys.append(Key('image.status', 'u2', e))
    else:
        keys.append(Key('image.data', image_dtype or 'f4', img))
        keys.append(Key('image.gain', 'u1', img))
        if mask:
            keys.append(Key('image.mask', 'u4', img))
    keys += [Key('header.pulseCount', 'u8'), Key('detector.data', 'u1', (5,)), Key('trailer.status', 'u8')]
    return Source(name, 'I', keys, ['image'])
