"""A run directory with a history: data files, versions of them and map files.

Every state of a data file is registered as (name, size, mtime) -> truth, so a
map entry can be judged by looking up what the file it names really held.
"""
import contextlib, copy, ctypes, errno, hashlib, json, os, shutil, subprocess, sys, time
import numpy as np
from . import gen, model
from .util import quiet

SHIM = {'COUNT': 0, 'FAIL': 1, 'EXIT_BEFORE': 2, 'EXIT_AFTER': 3, 'TORN_EXIT': 4, 'DELAY': 5, 'SHORT_FAIL': 6, 'LOG': 7}


class Shim:
    def __init__(self):
        self.lib = ctypes.CDLL(None)
        self.lib.shim_trace.restype = ctypes.c_char_p

    def arm(self, match, k=0, action='COUNT', err=0, delay=0, seed=1, persist=0):
        self.lib.shim_arm(match.encode(), k, SHIM[action], err, delay, seed & 0x7fffffff, persist)

    def disarm(self):
        return self.lib.shim_disarm()

    def fired(self):
        return self.lib.shim_fired()

    def trace(self):
        return [x for x in self.lib.shim_trace().decode().split(',') if x]


def interleave(a, b):
    """Whether the trains of two files overlap, or those of one lie among those of the other"""
    return bool(a and b and min(a) <= max(b) and min(b) <= max(a))


class World:
    """prefix: directory to work in; located: use a proposal like layout"""

    def __init__(self, rng, base, located=False, trains=None, **kw):
        self.rng = rng
        self.base = base
        self.exp = os.path.join(base, 'exp') + '/'
        if located:
            self.dir = os.path.join(base, 'gpfs', 'd', 'raw', 'FXE', '201901', 'p001234', 'r0017')
            self.scratch = os.path.join(self.exp, 'FXE', '201901', 'p001234', 'scratch')
            os.makedirs(self.scratch)
        else:
            self.dir = os.path.join(base, 'run-%d' % rng.randrange(1000))
            self.scratch = None
        os.makedirs(self.dir)
        self.located = located
        self.clock = 1500000000.0 + rng.randrange(10 ** 8)
        self.truth = {}       # (name, size, mtime) -> dict
        self.current = {}     # name -> (FileSpec, sources)   usable files
        self.junk = {}        # name -> unusable files
        self.serial = 0
        self.full = None
        while self.full is None or not self.full.sources or not self.full.files:
            self.full = gen.gen_run(rng, **kw)
        for f in self.full.files:
            self.put(f, self.full.sources)

    # -- paths
    def map_paths(self):
        p = [os.path.join(self.dir, 'karabo_data_map.json')]
        if self.scratch:
            p.append(os.path.join(self.scratch, '.karabo_data_maps', 'raw_r0017.json'))
        return p

    def tick(self):
        # distinct for every state, but sometimes very close and sometimes backwards
        self.serial += 1
        step = self.rng.choice([0.001, 0.5, 1.0, 3600.0, -7200.0])
        self.clock += step + self.serial * 1e-4
        while any(k[2] == self.clock for k in self.truth):
            self.clock += 0.01
        return self.clock

    def stamp(self, path, mtime=None):
        m = self.tick() if mtime is None else mtime
        os.utime(path, ns=(int(m * 1e9), int(m * 1e9)))

    def register(self, name, spec, sources):
        st = os.stat(os.path.join(self.dir, name))
        key = (name, st.st_size, st.st_mtime)
        val = None if spec is None else dict(
            train_ids=list(spec.trains), control_sources=sorted(s for s in spec.sources if sources[s].kind == 'C'),
            instrument_sources=sorted(s for s in spec.sources if sources[s].kind == 'I'))
        assert key not in self.truth or self.truth[key] == val
        self.truth[key] = val

    def put(self, spec, sources, same_mtime=False):
        """Write (atomically replace) a usable data file"""
        name = spec.name
        path = os.path.join(self.dir, name)
        r = gen.Run()
        r.sources = sources
        tmp = os.path.join(self.base, 'tmp.h5')
        r.write_file(spec, tmp)
        old = os.stat(path) if os.path.exists(path) else None
        if same_mtime and old and os.stat(tmp).st_size != old.st_size and \
                (name, os.stat(tmp).st_size, old.st_mtime) not in self.truth:
            os.utime(tmp, ns=(old.st_mtime_ns, old.st_mtime_ns))
        else:
            self.stamp(tmp)
        os.replace(tmp, path)
        self.current[name] = (spec, sources)
        self.junk.pop(name, None)
        self.register(name, spec, sources)

    def put_junk(self, name):
        path = os.path.join(self.dir, name)
        rng = self.rng
        tmp = os.path.join(self.base, 'tmp.h5')
        how = rng.choice(['empty', 'text', 'trunc'])
        if how == 'trunc' and name in self.current:
            data = open(path, 'rb').read()[:rng.choice([100, 700, 1500])]
        else:
            data = b'' if how == 'empty' else b'not a data file' * 50
        with open(tmp, 'wb') as f:
            f.write(data)
        self.stamp(tmp)
        os.replace(tmp, path)
        self.current.pop(name, None)
        self.junk[name] = how
        self.register(name, None, None)

    def remove(self, name):
        os.unlink(os.path.join(self.dir, name))
        self.current.pop(name, None)
        self.junk.pop(name, None)

    def changed_version(self, name, safe=False):
        """A different version of a file: other values or other trains, same sources"""
        spec, sources = self.current[name]
        rng = self.rng
        spec = copy.copy(spec)
        sources = dict(sources)
        others = [f.trains for n, (f, _) in self.current.items() if n != name and set(f.sources) & set(spec.sources)]
        mode = rng.choice(['values', 'shift', 'drop', 'extend', 'sources'])
        if safe:      # no mixture of old and new versions of files may conflict
            mode = rng.choice(['values', 'shift', 'drop', 'sources'])
        trains = list(spec.trains)
        if mode == 'shift':
            self.serial += 1
            trains = [t + ((1 << 40) * self.serial if safe else 5000) for t in trains]
        elif mode == 'drop' and len(trains) > 1:
            trains = trains[:-1]
        elif mode == 'extend':
            trains = trains + [(trains[-1] if trains else 777) + 1]
        elif mode == 'sources' and len(spec.sources) > 1:
            spec.sources = spec.sources[:-1]
        if any(interleave(trains, o) for o in others):
            trains = list(spec.trains)
        spec.trains = trains
        new = {}
        for s in spec.sources:
            o = sources[s]
            n = gen.Source(o.name, o.kind, list(o.keys.values()), o.pulse_groups)
            gen.fill_source(rng, n, trains)
            new[s] = n
        return spec, new

    # -- expectation
    def expect(self, names=None):
        """Merged model run of the current usable files"""
        r = gen.Run()
        for n, (spec, sources) in self.current.items():
            if names is not None and n not in names:
                continue
            r.files.append(spec)
            for s in spec.sources:
                o = sources[s]
                m = r.sources.get(s)
                if m is None:
                    m = r.sources[s] = gen.Source(o.name, o.kind, list(o.keys.values()), o.pulse_groups)
                    for g in m.groups:
                        m.counts[g] = {}
                    for k in m.keys:
                        m.data[k] = {}
                for g in m.groups:
                    for t in spec.trains:
                        m.counts[g][t] = o.counts[g][t]
                for k in m.keys:
                    for t in spec.trains:
                        m.data[k][t] = o.data[k][t]
        return r

    def compare(self, dc, ctx, what, names=None, nfields=3):
        """Compare an opened collection with the truth"""
        r = self.expect(names)
        ok = ctx.check([int(t) for t in dc.train_ids] == r.trains, 'trains', '%s: trains %r instead of %r' % (
            what, [int(t) for t in dc.train_ids], r.trains))
        want_c = {s for s in r.sources if r.sources[s].kind == 'C'}
        want_i = set(r.sources) - want_c
        ok &= ctx.check(set(dc.control_sources) == want_c and set(dc.instrument_sources) == want_i, 'sources',
                        '%s: sources %r + %r instead of %r + %r' % (what, sorted(dc.control_sources), sorted(dc.instrument_sources),
                                                                   sorted(want_c), sorted(want_i)))
        if not ok:
            return False
        view = model.View(r)
        fl = [(s, k) for s in sorted(r.sources) for k in sorted(r.sources[s].keys)]
        for s, k in (fl if len(fl) <= nfields else self.rng.sample(fl, nfields)):
            exp, tids = view.array(s, k)
            a = dc.get_array(s, k)
            ok &= ctx.check(model.same(a.values, exp), 'array', '%s: %s %s: %s' % (
                what, s, k, '' if model.same(a.values, exp) else model.diff(a.values, exp)))
            ctx.count('fields')
        for s in sorted(r.sources)[:3]:
            ok &= ctx.check(set(dc.keys_for_source(s)) == set(r.sources[s].keys), 'keys', '%s: keys of %s' % (what, s))
        return ok

    def close(self, dc):
        for f in dc.files:
            f.close()

    # -- the map
    def judge_map(self, text, ctx, what, complete=False):
        """text: bytes of a map file. It has to be well formed and true."""
        try:
            data = json.loads(text.decode('utf-8'))
        except ValueError as e:
            ctx.violation('torn-map', '%s: map of %d bytes is not valid JSON: %s; starts %r ends %r' % (
                what, len(text), e, text[:60], text[-60:]))
            return None
        if not ctx.check(isinstance(data, list) and all(isinstance(x, dict) for x in data), 'map-shape', '%s: %r' % (what, text[:200])):
            return None
        for x in data:
            key = (x.get('filename'), x.get('size'), x.get('mtime'))
            if key not in self.truth or self.truth[key] is None:
                ctx.violation('map-untrue', '%s: entry for %r which never existed like this (or is unusable)' % (what, key))
                continue
            t = self.truth[key]
            got = {k: x.get(k) for k in t}
            if isinstance(got['train_ids'], list):
                for k in ('control_sources', 'instrument_sources'):
                    got[k] = sorted(got[k]) if isinstance(got[k], list) else got[k]
            ctx.check(got == t, 'map-untrue', '%s: entry %r says %s, truth is %s' % (what, key, str(got)[:300], str(t)[:300]))
            ctx.count('map_entries')
        names = [x.get('filename') for x in data]
        ctx.check(len(names) == len(set(names)), 'map-duplicates', '%s: %r' % (what, names))
        if complete:
            st = {n: os.stat(os.path.join(self.dir, n)) for n in self.current}
            have = {(x['filename'], x['size'], x['mtime']) for x in data}
            miss = [n for n, s in st.items() if (n, s.st_size, s.st_mtime) not in have]
            ctx.check(not miss, 'map-incomplete', '%s: no entries for %r' % (what, miss))
        return data

    def extra_files(self):
        """Files which are neither data files nor maps"""
        out = []
        known = set(self.current) | set(self.junk) | {'karabo_data_map.json'}
        out += [n for n in os.listdir(self.dir) if n not in known]
        if self.scratch:
            for dp, dn, fn in os.walk(self.scratch):
                out += [os.path.join(dp, n) for n in fn if os.path.join(dp, n) not in self.map_paths()]
        return sorted(out)

    def hashes(self):
        out = {}
        for n in sorted(list(self.current) + list(self.junk)):
            p = os.path.join(self.dir, n)
            st = os.stat(p)
            out[n] = (hashlib.md5(open(p, 'rb').read()).hexdigest(), st.st_mtime_ns, st.st_size, st.st_ino)
        return out

    @contextlib.contextmanager
    def located_env(self):
        """Let the code under test look for scratch directories below us"""
        from karabo_data import run_files_map as m
        old = m.SCRATCH_ROOT_DIR
        m.SCRATCH_ROOT_DIR = self.exp
        try:
            yield
        finally:
            m.SCRATCH_ROOT_DIR = old
