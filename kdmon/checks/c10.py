"""C10: whatever the run map holds, and whatever fails, opening shows the run as it is."""
import errno, glob, json, os, random, shutil
from ..util import *
from ..mapworld import World, Shim, interleave

ID = 'C10'
RULE = ("random histories of opening a run, adding/removing/replacing/damaging its data files (new mtime, or same mtime and new "
        "size) and leaving right, stale, foreign, damaged, malformed or unreadable maps at either location, plus every (system "
        "call on a map path, errno, transient/persistent/short write) fault of an opening, and replacement of a data file at each "
        "observed point (file opened, directory listed, map written) of an opening; distinct by (event kinds before the "
        "opening, map state), by (fault point, errno) and by point of replacement")
ASSUME = ["a data file is replaced by another file (or gets another size or modification time), never changed in place while open",
          "a map entry which is well formed and has the right size and mtime of the file is believed (it cannot be told from a true one)"]
NEEDS_SHIM = True
MINIMUM = {'opens': 800, 'replaced_while_opening': 60, 'faults_fired': 300, 'bad_maps': 150, 'unprivileged_opens': 5, 'cached_opens': 100, 'reused_maps': 100, 'scratch_maps': 20}
ERRNOS = ['EACCES', 'EPERM', 'EROFS', 'ENOSPC', 'EDQUOT', 'EIO', 'ESTALE', 'EMFILE', 'EFBIG', 'ENOENT', 'ENAMETOOLONG', 'EBUSY']


def cases(tier, seed):
    n, m = {'quick': (220, 60), 'thorough': (4000, 900)}[tier]
    return [('h', seed, i) for i in range(n)] + [('f', seed, i) for i in range(m)] + \
        [('u', seed, i) for i in range({'quick': 12, 'thorough': 150}[tier])] + \
        [('r', seed, i) for i in range({'quick': 40, 'thorough': 800}[tier])]


def open_dir(w, rng, ctx, include=None):
    from karabo_data import RunDirectory
    how = rng.choice(['abs', 'abs', 'slash', 'rel', 'link'])
    p = w.dir
    cwd = os.getcwd()
    if how == 'slash':
        p += '/'
    elif how == 'link':
        p = os.path.join(w.base, 'ln')
        if not os.path.islink(p):
            os.symlink(w.dir, p)
    try:
        if how == 'rel':
            os.chdir(os.path.dirname(w.dir))
            p = os.path.basename(w.dir)
        with quiet() as (out, err):
            dc = RunDirectory(p) if include is None else RunDirectory(p, include=include)
    finally:
        os.chdir(cwd)
    ctx.count('opens')
    return dc, err.getvalue()


def bad_entry(rng, x):
    x = dict(x)
    how = rng.choice(['nokey', 'types', 'neg', 'nul', 'badtid', 'list', 'srcs', 'huge', 'str'])
    if how == 'nokey':
        x.pop(rng.choice(sorted(x)))
    elif how == 'types':
        x[rng.choice(sorted(x))] = rng.choice([None, {}, 5, [], 'x', [None], [[1]], True, -1, 1.5])
        # whatever the type, the entry must not be taken as a true one by accident
        if isinstance(x.get('train_ids'), list) and not x['train_ids'] or x.get('control_sources') == [] or x.get('instrument_sources') == []:
            x['mtime'] = 'never'
    elif how == 'neg':
        x['train_ids'] = [-1]
    elif how == 'nul':
        x['filename'] = 'RAW\0.h5'
    elif how == 'badtid':
        x['train_ids'] = rng.choice([['a'], [None], [1.5], '12', {}, [[1, 2]], [True]])
    elif how == 'list':
        return rng.choice([[], [1, 2], None, 'x', 5])
    elif how == 'srcs':
        x[rng.choice(['control_sources', 'instrument_sources'])] = rng.choice([[1], [None], [[]], 'SOURCE', {}, None])
    elif how == 'huge':
        x['train_ids'] = [2 ** 64]
    elif how == 'str':
        x['filename'] = rng.choice(['\ud800', 'a' * 5000, '', '.', '..', '/', None])
    return x


def good_map(w):
    """A right map for the present files, made independently"""
    out = []
    for n in sorted(w.current):
        st = os.stat(os.path.join(w.dir, n))
        out.append(dict(filename=n, mtime=st.st_mtime, size=st.st_size, **w.truth[(n, st.st_size, st.st_mtime)]))
    return out


def damage_map(w, rng, path):
    """Leave some map at path; returns a name for its kind"""
    kind = rng.choice(['delete', 'trunc', 'bytes', 'nonjson', 'shape', 'entries', 'entries', 'stale', 'stale', 'stale', 'partial', 'dir',
                       'danglink', 'loop', 'utf16', 'empty', 'deep', 'extra', 'good', 'unreadable', 'bigint'])
    if os.path.islink(path) or os.path.isfile(path):
        old = open(path, 'rb').read() if os.path.exists(path) else b''
        os.unlink(path)
    else:
        old = b''
        if os.path.isdir(path):
            os.rmdir(path)
    if kind == 'delete':
        return kind
    os.makedirs(os.path.dirname(path), exist_ok=True)
    g = good_map(w)
    txt = old if old and rng.random() < .5 else json.dumps(g, indent=2).encode()
    if kind == 'trunc':
        txt = txt[:rng.randrange(len(txt))]
    elif kind == 'bytes':
        # something that cannot be mistaken for a true entry
        cut = rng.randrange(len(txt))
        txt = txt[:cut] + bytes(rng.randrange(256) for _ in range(rng.randint(1, 30))) + b'\xff\x00' + txt[cut:]
    elif kind == 'nonjson':
        txt = rng.choice([b'hello', b'[1, 2', b'{"a":}', b'\x89HDF\r\n\x1a\n', b'[{}', b'nul'])
    elif kind == 'shape':
        txt = rng.choice([b'{}', b'null', b'5', b'"text"', b'[]', b'[[]]', b'{"filename": "x"}', b'true', b'[null]', b'1e999', b'NaN', b'["a", 5, {}]'])
    elif kind == 'entries':
        txt = json.dumps([bad_entry(rng, x) if rng.random() < .7 else x for x in g]).encode()
    elif kind == 'stale':
        for x in g:
            how = rng.choice(['size', 'mtime', 'both', 'gone', 'close', 'ok'])
            if how == 'ok':
                continue
            if how in ('size', 'both'):
                x['size'] += rng.choice([-1, 1, 512])
            if how in ('mtime', 'both'):
                x['mtime'] += rng.choice([-1, 1, 0.5, 86400])
            if how == 'close':
                x['mtime'] += rng.choice([-1e-4, 1e-4, 1e-3])
            if how == 'gone':
                x['filename'] = 'RAW-R0001-DA77-S00000.h5'
            x['train_ids'] = [1, 2, 3]
            x['control_sources'] = ['NO/SUCH/SOURCE']
            x['instrument_sources'] = []
        txt = json.dumps(g, indent=2).encode()
    elif kind == 'partial':
        txt = json.dumps([x for x in g if rng.random() < .5]).encode()
    elif kind == 'extra':
        g.append(dict(filename='other.h5', mtime=1.0, size=1, train_ids=[1], control_sources=['A/B/C'], instrument_sources=[]))
        rng.shuffle(g)
        for x in g:
            x['more'] = 'unknown field'
        txt = json.dumps(g).encode()
    elif kind == 'dir':
        os.mkdir(path)
        return kind
    elif kind == 'danglink':
        os.symlink(os.path.join(w.base, 'nowhere', 'map.json'), path)
        return kind
    elif kind == 'loop':
        os.symlink(path, path)
        return kind
    elif kind == 'utf16':
        txt = txt.decode('utf-8', 'replace').encode('utf-16')
    elif kind == 'empty':
        txt = b''
    elif kind == 'deep':
        txt = b'[' * 100000
    elif kind == 'bigint':
        txt = b'[' + b'9' * 6000 + b']'
    with open(path, 'wb') as f:
        f.write(txt)
    if kind == 'unreadable':
        os.chmod(path, 0)
    return kind


def change_data(w, rng):
    names = sorted(w.current)
    kind = rng.choice(['replace', 'replace', 'replace', 'samemtime', 'remove', 'junk', 'touch', 'add', 'swap'])
    if kind in ('replace', 'samemtime'):
        spec, src = w.changed_version(rng.choice(names))
        w.put(spec, src, same_mtime=kind == 'samemtime')
    elif kind == 'remove':
        if len(names) < 2:
            return None
        w.remove(rng.choice(names))
    elif kind == 'junk':
        if len(names) < 2 and rng.random() < .8:
            return None
        n = rng.choice(names)
        if len(w.current) > 1:
            w.put_junk(n)
        else:
            w.put_junk('RAW-R0001-DA66-S00000.h5')
    elif kind == 'touch':
        n = rng.choice(names)
        w.stamp(os.path.join(w.dir, n))
        w.register(n, *w.current[n])
    elif kind == 'add':
        gone = [f for f in w.full.files if f.name not in w.current]
        if not gone:
            return None
        f = rng.choice(gone)
        cur = set(f.sources)
        if any(set(sp.sources) & cur and interleave(sp.trains, f.trains) for sp, _ in w.current.values()):
            return None
        w.put(f, w.full.sources)
    elif kind == 'swap':
        if len(names) < 2:
            return None
        a, b = rng.sample(names, 2)
        pa, pb = os.path.join(w.dir, a), os.path.join(w.dir, b)
        tmp = os.path.join(w.base, 'swap')
        os.rename(pa, tmp); os.rename(pb, pa); os.rename(tmp, pb)
        (sa, ra), (sb, rb) = w.current[a], w.current[b]
        import copy
        sa, sb = copy.copy(sa), copy.copy(sb)
        sa.name, sb.name = b, a
        w.current[a], w.current[b] = (sb, rb), (sa, ra)
        w.register(a, sb, rb)
        w.register(b, sa, ra)
    return kind


def history(case, ctx):
    rng = rng_for(ID, *case)
    w = World(rng, ctx.dir('w'), located=rng.random() < .5, max_trains=6, empty_file=0.05)
    ctx.sample(dict(history=case, run=w.full.describe()))
    with w.located_env():
        events = []
        for step in range(rng.randint(3, 7)):
            if rng.random() < .75:
                k = change_data(w, rng)
                if k:
                    events.append(k)
                    ctx.count('data_changes')
            if rng.random() < .5:
                i = rng.randrange(len(w.map_paths()))
                k = damage_map(w, rng, w.map_paths()[i])
                events.append('map%d-%s' % (i, k))
                ctx.count('bad_maps')
            inc = None
            names = None
            if rng.random() < .15:
                inc = '*%s*' % sorted(w.current)[rng.randrange(len(w.current))][-14:-3]
                import fnmatch
                names = [n for n in w.current if fnmatch.fnmatch(n, inc)]
            before = w.hashes()
            had = any(os.path.isfile(p) for p in w.map_paths())
            dc, err = open_dir(w, rng, ctx, inc)
            if had:
                ctx.count('cached_opens')
            what = 'after %s' % ', '.join(events)
            w.compare(dc, ctx, what, names)
            w.close(dc)
            ctx.check(w.hashes() == before, 'data-touched', what)
            ctx.seen(tuple(events[-3:]), inc is not None, w.located)
            if ctx.violations:
                return
        reuse(w, rng, ctx, what)


def reuse(w, rng, ctx, what):
    """A run opened before has a map, from which it is opened again without reading its files"""
    mp = w.map_paths()[0]
    if w.junk or os.path.lexists(mp) and not os.path.isfile(mp):
        return
    if rng.random() < .3 and os.path.isfile(mp):
        os.unlink(mp)
    if w.located and rng.random() < .5:
        # users can rarely write to the run folder: the map goes to the scratch folder
        if os.path.isfile(mp):
            os.unlink(mp)
        os.mkdir(mp)
        m2 = w.map_paths()[1]
        if os.path.isdir(m2):
            return
        if rng.random() < .7:
            shutil.rmtree(os.path.dirname(m2), ignore_errors=True)
        ctx.count('scratch_maps')
    if rng.random() < .4:
        # opened part by part: the map keeps what is known of the other files
        for p in w.map_paths():
            if os.path.isfile(p):
                os.unlink(p)
        parts = sorted(w.current)
        rng.shuffle(parts)
        for name in parts:
            dc, err = open_dir(w, rng, ctx, glob.escape(name))
            w.compare(dc, ctx, what + ', file by file', [name])
            w.close(dc)
        what += ', after opening it file by file'
        ctx.count('opened_in_parts')
    else:
        dc, err = open_dir(w, rng, ctx)
        w.compare(dc, ctx, what, None)
        w.close(dc)
    if not ctx.check(any(os.path.isfile(p) for p in w.map_paths()), 'no-map', '%s: opening the run left no map' % what):
        return
    shim = Shim()
    shim.arm('-S0', 0, 'LOG')
    try:
        dc, err = open_dir(w, rng, ctx)
    finally:
        n = shim.disarm()
    ctx.count('reused_maps')
    ctx.check(n == 0, 'map-not-used', '%s: opening the unchanged run again opened %d of its %d data files' % (what, n, len(w.current)))
    w.compare(dc, ctx, what + ', again', None)
    w.close(dc)


def faults(case, ctx):
    """Fail each system call on a map path in turn"""
    shim = Shim()
    rng = rng_for(ID, *case)
    w = World(rng, ctx.dir('w'), located=rng.random() < .5, max_trains=rng.choice([5, 5, 600]), gaps=False, empty_file=0)
    with w.located_env():
        start = rng.choice(['none', 'good', 'stale', 'scratchonly', 'shape'])
        mp = w.map_paths()

        def setup():
            for p in mp:
                if os.path.isdir(os.path.dirname(p)) and p != mp[0]:
                    shutil.rmtree(os.path.dirname(p))
                elif os.path.exists(p):
                    os.unlink(p)
            if start in ('good', 'stale', 'shape'):
                g = good_map(w)
                if start == 'stale':
                    g[0]['mtime'] -= 5
                    g[0]['train_ids'] = [1, 2]
                with open(mp[0], 'w') as f:
                    f.write('{"a": 1}' if start == 'shape' else json.dumps(g, indent=2))
            if start == 'scratchonly' and len(mp) > 1:
                os.makedirs(os.path.dirname(mp[1]))
                with open(mp[1], 'w') as f:
                    json.dump(good_map(w), f)
        setup()
        shim.arm('karabo_data_map')
        dc, _ = open_dir(w, rng, ctx)
        w.close(dc)
        n = shim.disarm()
        points = shim.trace()
        ctx.count('fault_points', n)
        todo = [(k, a) for k in range(1, n + 1) for a in ('once', 'persist')] + \
            [(k, 'short') for k in range(1, n + 1) if points[k - 1] == 'write']
        if len(todo) > 24:
            todo = rng.sample(todo, 24)
        for k, a in todo:
            e = rng.choice(ERRNOS)
            setup()
            before = w.hashes()
            shim.arm('karabo_data_map', k, 'SHORT_FAIL' if a == 'short' else 'FAIL', getattr(errno, e), persist=a == 'persist')
            what = 'fault %s at call %d (%s) %s, start %s' % (e, k, points[k - 1], a, start)
            try:
                dc, _ = open_dir(w, rng, ctx)
            except Exception as x:
                shim.disarm()
                ctx.violation('open-failed', '%s: opening the run failed: %r' % (what, x), trace=shim.trace())
                return
            n2 = shim.fired()
            shim.disarm()
            ctx.count('faults_fired', n2)
            ctx.seen('fault', points[k - 1], e, a, start, w.located)
            w.compare(dc, ctx, what)
            w.close(dc)
            dc, _ = open_dir(w, rng, ctx)
            w.compare(dc, ctx, 'reopening after ' + what)
            w.close(dc)
            ctx.check(w.hashes() == before, 'data-touched', what)
            if ctx.violations:
                return


class Points:
    """Calls act() at the k-th point of an opening where something happens to files"""
    current = None

    def __init__(self, k, act):
        self.k, self.act, self.n, self.busy, self.kinds = k, act, 0, False, []

    def point(self, kind):
        if self.busy:
            return
        self.n += 1
        self.kinds.append(kind)
        if self.n == self.k:
            self.busy = True
            try:
                self.act()
            finally:
                self.busy = False

    def __enter__(self):
        import h5py, sys
        if Points.current is None:
            def hook(event, args):
                c = Points.current
                if c and event in ('open', 'os.listdir', 'os.scandir', 'os.rename', 'tempfile.mkstemp', 'glob.glob'):
                    if event != 'open' or '/' in str(args[0]) and '.py' not in str(args[0]):
                        c.point(event)
            sys.addaudithook(hook)
        Points.current = self
        self.init = orig = h5py.File.__init__

        def init(slf, *a, **k):
            self.point('before h5py.File')
            orig(slf, *a, **k)
            self.point('after h5py.File')
        h5py.File.__init__ = init
        return self

    def __exit__(self, *a):
        import h5py
        h5py.File.__init__ = self.init
        Points.current = False


def replaced(case, ctx):
    """A data file is replaced while the run is being opened; later openings show the new one"""
    rng = rng_for(ID, *case)
    w = World(rng, ctx.dir('w'), located=rng.random() < .3, max_trains=6, gaps=False, empty_file=0)
    with w.located_env():
        start = rng.choice(['none', 'none', 'stale', 'good'])
        if start == 'good':
            w.close(open_dir(w, rng, ctx)[0])
        total = None
        for rnd in range(8):
            if start == 'none' or rng.random() < .4:
                for p in w.map_paths():
                    if os.path.exists(p):
                        os.unlink(p)
            elif start == 'stale':
                change_data(w, rng)
                if not w.current:
                    return

            def act():
                for name in sorted(w.current):
                    if rng.random() < .6:
                        spec, src = w.changed_version(name, safe=True)
                        w.put(spec, src, same_mtime=rng.random() < .2)
            k = 0 if total is None else rng.randint(1, total)
            with Points(k, act) as pts:
                try:
                    dc, _ = open_dir(w, rng, ctx)
                except Exception as x:
                    if k == 0:
                        raise
                    dc = None
            total = max(total or 1, pts.n)
            if dc is not None:
                w.close(dc)
            if not k or pts.n < k:
                continue
            ctx.count('replaced_while_opening')
            what = 'after replacing files at point %d (%s) of an opening, start %s' % (k, pts.kinds[k - 1], start)
            ctx.seen('replaced', pts.kinds[k - 1], k, start)
            dc, _ = open_dir(w, rng, ctx)
            w.compare(dc, ctx, what)
            w.close(dc)
            if ctx.violations:
                return


def unprivileged(case, ctx):
    """As a user who may not write (or not even read) the map"""
    rng = rng_for(ID, *case)
    w = World(rng, ctx.dir('w'), located=rng.random() < .5, max_trains=6, empty_file=0)
    mode = rng.choice(['ro-dir', 'ro-map', 'ro-dir-stale', 'rw'])
    with w.located_env():
        if mode in ('ro-map', 'ro-dir-stale'):
            dc, _ = open_dir(w, rng, ctx)
            w.close(dc)
            change_data(w, rng)
        p = w.map_paths()[0]
        if mode == 'ro-map' and os.path.exists(p):
            os.chmod(p, 0)
        for dp, dn, fn in os.walk(w.base):
            os.chmod(dp, 0o755)
        if mode == 'rw':
            os.chmod(w.dir, 0o777)
        for q in (w.base, os.path.dirname(w.base), os.path.dirname(os.path.dirname(w.base))):
            os.chmod(q, 0o755)
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                    os.listdir(w.dir)
                except OSError as e:
                    os.write(wr, b'SKIP %r' % str(e).encode())
                    os._exit(0)
                dc, err = open_dir(w, random.Random(1), ctx)
                n0 = len(ctx.violations)
                w.compare(dc, ctx, 'unprivileged ' + mode)
                os.write(wr, ('BAD ' + ctx.violations[n0]['detail'] if len(ctx.violations) > n0 else 'OK').encode())
            except BaseException as e:
                os.write(wr, ('FAIL %r' % e).encode()[:2000])
            finally:
                os._exit(0)
        os.close(wr)
        res = b''
        while True:
            x = os.read(r, 4096)
            if not x:
                break
            res += x
        os.close(r)
        os.waitpid(pid, 0)
        res = res.decode()
        if res.startswith('SKIP'):
            raise Skip
        ctx.count('unprivileged_opens')
        ctx.seen('unprivileged', mode, w.located)
        ctx.check(res == 'OK', 'unprivileged', '%s: %s' % (mode, res))
        dc, _ = open_dir(w, rng, ctx)
        w.compare(dc, ctx, 'after unprivileged ' + mode)
        w.close(dc)


def run_case(case, ctx):
    {'h': history, 'f': faults, 'u': unprivileged, 'r': replaced}[case[0]](case, ctx)
