"""Reference model: what a collection must return, from the ground truth."""
import fnmatch, re
import numpy as np


class View:
    """A selection of trains, sources and keys of a run."""

    def __init__(self, run, trains=None, sel=None):
        self.run = run
        self.trains = run.trains if trains is None else list(trains)
        self.sel = {s: set(v.keys) for s, v in run.sources.items()} if sel is None else \
            {s: set(k) for s, k in sel.items()}

    def array(self, source, key):
        s = self.run.sources[source]
        k = s.keys[key]
        parts, tids = [], []
        for t in self.trains:
            a = s.data[key].get(t)
            if a is not None and len(a):
                parts.append(a)
                tids += [t] * len(a)
        dt = object if k.dtype == 'str' else k.dtype
        v = np.concatenate(parts) if parts else np.zeros((0,) + k.shape, dt)
        return v, np.array(tids, 'u8')

    def train(self, tid):
        """{source: {key: value}} expected from train_from_id"""
        out = {}
        for sn, keys in self.sel.items():
            s = self.run.sources[sn]
            d = out[sn] = {}
            for k in keys:
                a = s.data[k].get(tid)
                if a is None or not len(a):
                    continue
                d[k] = a[0] if len(a) == 1 else a
        return out

    def complete(self, tid):
        """train has data for every selected field"""
        for sn, keys in self.sel.items():
            s = self.run.sources[sn]
            for k in keys:
                a = s.data[k].get(tid)
                if a is None or not len(a):
                    return False
        return True

    def counts(self, source, key):
        s = self.run.sources[source]
        g = s.group_of(key)
        return {t: s.counts[g][t] for t in self.trains if t in s.counts[g]}

    # -- selection ---------------------------------------------------------
    def glob(self, pairs):
        out = {}
        for sg, kg in pairs:
            for s in self.sel:
                if not fnmatch.fnmatchcase(s, sg):
                    continue
                src = self.run.sources[s]
                ks = set()
                for k in self.sel[s]:
                    if fnmatch.fnmatchcase(k, kg):
                        ks.add(k)
                    elif src.kind == 'C' and not kg.endswith(('.value', '*')) and \
                            k.endswith('.value') and fnmatch.fnmatchcase(k[:-6], kg):
                        ks.add(k)
                if ks:
                    out.setdefault(s, set()).update(ks)
        return out


def same(a, b):
    """Bit for bit equality of arrays including dtype and shape"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return a.dtype == b.dtype and a.tolist() == b.tolist()
    if a.dtype != b.dtype:
        return False
    if a.dtype.kind in 'fc':
        return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
    return np.array_equal(a, b)


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %r instead of %r' % (a.shape, b.shape)
    if a.dtype != b.dtype:
        return 'dtype %r instead of %r' % (a.dtype, b.dtype)
    ne = [i for i in np.ndindex(a.shape) if not (a[i] == b[i] or (a[i] != a[i] and b[i] != b[i]))]
    return '%d of %d values differ, e.g. at %r: %r instead of %r' % (
        len(ne), a.size, ne[0] if ne else None, a[ne[0]] if ne else None, b[ne[0]] if ne else None)
