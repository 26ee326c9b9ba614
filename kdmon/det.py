"""Generator of multi-module detector runs and the arrays expected from them."""
import os
import numpy as np
from . import gen, model
from .gen import Key, Source, FileSpec, Run
from .util import random_subset

CLS = {'AGIPD': 'AGIPD1M', 'LPD': 'LPD1M', 'DSSC': 'DSSC1M'}


def gen_det_run(rng, det=None, raw=None, max_trains=6, mods=None, img=None, frames=None, gain2=None,
                same_pulses=None, decoys=True, mask=None, second=False, header_holes=True, name=None, max_mods=5,
                missing=None, big_ids=True):
    det = det or rng.choice(sorted(gen.DETS))
    raw = rng.random() < .5 if raw is None else raw
    name = name or gen.DETS[det][0]
    img = img or rng.choice([(3, 2), (2, 4), (2, 3), (5, 2)])
    r = Run()
    r.det, r.raw, r.name, r.img = det, raw, name, img
    if gain2 is None:
        gain2 = det == 'AGIPD'
    F = frames or rng.choice([1, 2, 3, 4, 6])
    r.F = F
    trains = gen.gen_trains(rng, rng.randint(1, max_trains), gaps=rng.random() < .6)
    if not big_ids and trains[0] > 1 << 50:
        trains = [t - trains[0] + 10000 for t in trains]
    mods = mods if mods is not None else sorted(rng.sample(range(16), rng.randint(1, max_mods)))
    version = rng.choice(['0.5', '0.5', '1.0', '1.1', '1.2'])
    index = rng.choice(['count', 'count', 'status'])
    if mask is None:
        mask = rng.random() < .7
    extra1 = True
    # pulse IDs per train, the same in all modules
    if same_pulses is None:
        same_pulses = rng.random() < .5
    step, start = rng.choice([1, 1, 2, 4, 10, 400]), rng.choice([0, 0, 1, 5, 5, 600])
    high = rng.choice([0, 0, 0, 700, 2600])
    order = list if rng.random() < .25 else sorted     # pulses need not be recorded in order of their IDs
    pids = {}
    for t in trains:
        if same_pulses:
            pids[t] = np.arange(F, dtype='u8') * step + start
        else:
            pids[t] = np.array(order(rng.sample(range(0, 3 * F + 4), F)), 'u8') + np.uint64(high)
    r.pids = pids
    dtype = rng.choice(['u2', 'i2', 'u4']) if raw else rng.choice(['f4', 'f4', 'f8'])
    for m in mods:
        sn = '%s/DET/%dCH0:xtdf' % (name, m)
        s = gen.det_source(sn, raw, img, mask=mask, gain2=gain2, image_dtype=dtype, extra1=extra1)
        r.sources[sn] = s
        mode = missing or rng.choice(['full', 'full', 'zero', 'zero', 'absent', 'window', 'both'])
        at = list(trains)
        if mode in ('absent', 'both'):
            at = [t for t in trains if rng.random() > .3] or [rng.choice(trains)]
        elif mode == 'window' and len(trains) > 1:
            i = rng.randrange(len(trains) - 1)
            at = trains[i:rng.randint(i + 1, len(trains))]
        parts = gen.split_sorted(rng, at, rng.choice([1, 1, 2, 3]))
        if rng.random() < .08:
            parts.insert(rng.randint(0, len(parts)), [])
        for p in parts:
            fill(rng, s, p, F, pids, raw, zero=.35 if mode in ('zero', 'both') else 0,
                 holes=.3 if header_holes and rng.random() < .3 else 0)
        base = '%s-R0001-%s%02d' % ('RAW' if raw else 'CORR', det, m)
        for i, p in enumerate(parts):
            r.files.append(FileSpec('%s-S%05d.h5' % (base, i), p, [sn], version, index,
                                    pad=rng.choice([0, 0, 3, 32]), data_pad=rng.choice([0, 0, 2]),
                                    bad_status_last=rng.random() < .3))
    r.mods = mods
    r.det_trains = trains
    if decoys:
        for dn in rng.sample(gen.CTRL + gen.INST[:2], rng.choice([0, 1, 2])):
            s = gen.ctrl_source(rng, dn) if ':' not in dn else gen.inst_source(rng, dn, False)
            if not s.keys:
                continue
            r.sources[dn] = s
            gen.fill_source(rng, s, trains)
            r.files.append(FileSpec('RAW-R0001-DA%02d-S00000.h5' % (len(r.files) + 1), trains, [dn], version, index))
    return r


def fill(rng, s, trains, F, pids, raw, zero=0, holes=0):
    for g in s.groups:
        c = s.counts.setdefault(g, {})
        for t in trains:
            if g == 'image':
                c[t] = 0 if rng.random() < zero else F
            else:
                c[t] = 0 if rng.random() < holes else 1
    for k in s.keys.values():
        g = s.group_of(k.name)
        c = s.counts[g]
        d = s.data.setdefault(k.name, {})
        tot = sum(c[t] for t in trains)
        if k.name == 'image.pulseId':
            for t in trains:
                d[t] = (pids[t] if c[t] else pids[t][:0]).reshape((-1,) + k.shape).astype(k.dtype)
            continue
        if k.name == 'image.trainId':
            for t in trains:
                d[t] = np.full((c[t],) + k.shape, t, k.dtype)
            continue
        v = gen.values(rng, k, tot)
        pos = 0
        for t in trains:
            d[t] = v[pos:pos + c[t]]
            pos += c[t]


def modules_of(r, name=None):
    """{module number: source} of a detector"""
    name = name or r.name
    out = {}
    for s in r.sources:
        pre, post = name + '/DET/', 'CH0:xtdf'
        if s.startswith(pre) and s.endswith(post) and s[len(pre):-len(post)].isdigit():
            out[int(s[len(pre):-len(post)])] = s
    return out


def has(r, source, t, group='image'):
    return r.sources[source].counts[group].get(t, 0) > 0


def expected_trains(r, mods, min_modules, within=None):
    out = []
    for t in r.trains:
        if within is not None and t not in within:
            continue
        if sum(has(r, s, t) for s in mods.values()) >= min_modules and min_modules > 0:
            out.append(t)
    return out


class Pulses:
    """A pulse selection and its meaning"""

    def __init__(self, rng, r):
        from karabo_data import by_id, by_index
        F = r.F
        top = int(max(p.max() for p in r.pids.values())) + 1
        kind = rng.choice(['none', 'none', 'all', 'id', 'index'])
        self.what = kind
        self.arg = None
        self.pred = lambda i, pid: True
        if kind == 'all':
            self.arg = rng.choice([by_id[:], by_index[:], by_id[0:], by_index[0:2700]])
        elif kind in ('id', 'index'):
            by = by_id if kind == 'id' else by_index
            n = top if kind == 'id' else F
            real = sorted({int(x) for p in r.pids.values() for x in p}) if kind == 'id' else range(F)

            def some():
                return rng.choice(real) if rng.random() < .5 else rng.randrange(n + 2)

            form = rng.choice(['int', 'list', 'array', 'slice', 'slice', 'step', 'npint'])
            if form in ('int', 'npint'):
                x = some()
                self.arg = by[x] if form == 'int' else by[np.int64(x)]
                ok = lambda v: v == x
                self.what += ' %s %d' % (form, x)
            elif form in ('list', 'array'):
                xs = [some() for _ in range(rng.randint(1, 4))]
                if rng.random() < .5:
                    xs = sorted(set(xs))
                self.arg = by[list(xs)] if form == 'list' else by[np.array(xs, rng.choice(['u8', 'i8', 'i4', 'u2']))]
                ok = lambda v: v in xs
                self.what += ' %s %r' % (form, xs)
            else:
                a = rng.choice([None, some()])
                b = rng.choice([None, some(), some(), 5000])
                st = None if form == 'slice' else rng.choice([1, 2, 3])
                self.arg = by[a:b:st]
                ok = lambda v: v >= (a or 0) and (b is None or v < b) and (v - (a or 0)) % (st or 1) == 0
                self.what += ' %r:%r:%r' % (a, b, st)
            self.pred = (lambda i, pid: ok(int(pid))) if kind == 'id' else (lambda i, pid: ok(int(i)))

    def kw(self):
        return {} if self.arg is None else {'pulses': self.arg}

    def positions(self, pids):
        return [i for i, p in enumerate(pids) if self.pred(i, p)]


def cells(r, mods, key, trains, pulses):
    """{(module, train, pulse): entry} expected in a combined per-pulse array"""
    out = {}
    for m, sn in mods.items():
        s = r.sources[sn]
        for t in trains:
            a = s.data[key].get(t)
            if a is None or not len(a):
                continue
            for i in pulses.positions(r.pids[t]):
                e = a[i]
                if e.shape[:1] == (1,):
                    e = e[0]
                out[m, t, int(r.pids[t][i])] = e
    return out


def slow_cells(r, mods, key, trains):
    out = {}
    for m, sn in mods.items():
        s = r.sources[sn]
        for t in trains:
            a = s.data[key].get(t)
            if a is not None and len(a):
                out[m, t] = a[0]
    return out
