"""C20: the validator on sound data and on injected faults."""
import hashlib, json, os, re, shutil, subprocess, sys
import h5py
import numpy as np
from ..util import *

ID = 'C20'
RULE = ("random sound runs (all layouts of the generator, missing maps, stale maps) validated as run, file by file and by the command, then with one or "
        "two faults injected at random file, source, train and index style; each fault has to be reported with its file, dataset and kind, and files "
        "not altered; distinct by fault kinds, index style and position class")
ASSUME = ["the documented faults (docs/validation.rst) of instrument data are injected; other damage is out of scope",
          "an index is 'of the wrong length' if it has fewer entries than there are train IDs, or parts of different lengths",
          "extra problems reported for data which has a fault are accepted"]
MINIMUM = {'sound_runs': 400, 'sound_files': 800, 'faults': 600, 'double': 90, 'main': 300, 'run_reported': 500, 'file_reported': 300}

KINDS = ['tid-zero', 'tid-dup', 'tid-dec', 'beyond-short', 'beyond-count', 'beyond-wrap', 'start', 'gap', 'gap', 'overlap', 'overlap', 'short', 'short-part', 'ndim',
         'unusable', 'unusable', 'map-trains', 'map-trains', 'map-trains', 'map-sources']
WORDS = {'tid-zero': r'zero', 'tid-dup': r'increas|order', 'tid-dec': r'increas|order|decreas', 'beyond-short': r'outside|beyond|past', 'beyond-count': r'outside|beyond|past',
         'beyond-wrap': r'outside|beyond|past|overlap|gap', 'start': r'start', 'gap': r'gap', 'overlap': r'overlap', 'short': r'entries|length|shape', 'short-part': r'entries|length|shape|read index',
         'ndim': r'1D|dim|shape', 'unusable': r'open|read', 'map-trains': r'map|cache', 'map-sources': r'map|cache'}


def cases(tier, seed):
    n, m = {'quick': (900, 4), 'thorough': (14000, 40)}[tier]
    return [('cmd', seed, i) for i in range(m)] + [('s', seed, i) for i in range(n)]


def digest(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        out[n] = (hashlib.sha256(open(p, 'rb').read()).hexdigest(), os.stat(p).st_mtime_ns) if os.path.isfile(p) else None
    return out


def groups(r, f, need=1):
    """instrument groups of a file with at least `need` trains"""
    if len(f.trains) < need:
        return []
    return [(s, g) for s in f.sources if s in r.sources and r.sources[s].kind == 'I' for g in r.sources[s].groups]


def inject(rng, r, d, kind, used):
    # on copies, as HDF5 may still have the original files open
    for f in r.files:
        p = os.path.join(d, f.name)
        if f.name in used or kind.startswith('map-'):
            continue
        st = os.stat(p)
        shutil.copyfile(p, p + '.tmp')
        os.utime(p + '.tmp', ns=(st.st_atime_ns, st.st_mtime_ns))
        os.replace(p + '.tmp', p)
    return inject1(rng, r, d, kind, used)


def inject1(rng, r, d, kind, used):
    """Damage one file; returns (kind, path, {acceptable datasets} or None, position class) or None if not possible"""
    files = [f for f in r.files if f.name not in used]
    if not files:
        return None
    if kind == 'unusable':
        how = rng.choice(['garbage', 'empty', 'truncated', 'extra-garbage', 'no-index', 'no-metadata'])
        if how == 'extra-garbage':
            path = os.path.join(d, 'RAW-R0001-ZZ%02d-S00000.h5' % rng.randint(1, 9))
            open(path, 'wb').write(b'not HDF5 at all')
            return kind, path, None, how
        f = rng.choice(files)
        path = os.path.join(d, f.name)
        if how == 'garbage':
            open(path, 'wb').write(b'\x89HDX' * 300)
        elif how == 'empty':
            open(path, 'wb').close()
        elif how == 'truncated':
            size = os.path.getsize(path)
            with open(path, 'r+b') as h:
                h.truncate(rng.randrange(8, size * 3 // 4))
        else:
            with h5py.File(path, 'r+') as h:
                del h['INDEX' if how == 'no-index' else 'METADATA']
        used.add(f.name)
        return kind, path, None, how
    if kind.startswith('map-'):
        mp = os.path.join(d, 'karabo_data_map.json')
        if 'map' in used or not os.path.exists(mp):
            return None
        data = json.load(open(mp))
        f = max(rng.sample(files, min(len(files), 3)), key=lambda f: len(f.trains))
        e = [x for x in data if x['filename'] == f.name]
        if not e:
            return None
        e = e[0]
        if kind == 'map-trains':
            t = list(e['train_ids'])
            c = rng.choice(['add', 'drop', 'change', 'change'])
            if c == 'add' or not t:
                t.append((t[-1] if t else 5) + 1)
            elif c == 'drop':
                t.pop(rng.randrange(len(t)))
            else:
                # anywhere, also so that the trains stay in order
                t[rng.randrange(len(t))] += rng.choice([1, 1, 5])
            e['train_ids'] = t
        else:
            k = rng.choice(['control_sources', 'instrument_sources'])
            o = 'instrument_sources' if k[0] == 'c' else 'control_sources'
            c = rng.choice(['drop', 'add', 'rename', 'rename', 'move'])
            if e[k] and c == 'drop':
                e[k] = e[k][1:]
            elif e[k] and c == 'rename':
                i = rng.randrange(len(e[k]))
                x = e[k][i]
                e[k] = e[k][:i] + [rng.choice([x + 'x', 'XX/YY/ZZ', x[1:] or 'x', x.swapcase()])] + e[k][i + 1:]
            elif e[k] and c == 'move':
                e[o] = e[o] + e[k][:1]
                e[k] = e[k][1:]
            else:
                e[k] = e[k] + ['XX/YY/ZZ' + (':out' if k[0] == 'i' else '')]
        json.dump(data, open(mp, 'w'))
        used.add('map')
        return kind, os.path.join(d, f.name), None, kind
    if kind.startswith('tid-'):
        ok = [f for f in files if len(f.trains) >= 2]
        if not ok:
            return None
        f = rng.choice(ok)
        n = len(f.trains)
        path = os.path.join(d, f.name)
        with h5py.File(path, 'r+') as h:
            t = h['INDEX/trainId'][:]
            if kind == 'tid-zero':
                i = rng.choice([0, n - 2, rng.randrange(n - 1)])
                t[i] = 0
            else:
                i = rng.choice([0, n - 2, rng.randrange(n - 1)])
                if kind == 'tid-dup':
                    t[i + 1] = t[i]
                elif rng.random() < .5:
                    t[i], t[i + 1] = t[i + 1], t[i]
                else:
                    t[i + 1] = max(1, int(t[i]) - rng.choice([1, 7]))
            h['INDEX/trainId'][...] = t
        used.add(f.name)
        return kind, path, {'INDEX/trainId'}, (i == 0, i == n - 2)
    need = 2 if kind in ('gap', 'overlap') else 1
    ok = [(f, s, g) for f in files for s, g in groups(r, f, need)]
    if not ok:
        return None
    f, s, g = rng.choice(ok)
    src = r.sources[s]
    n = len(f.trains)
    path = os.path.join(d, f.name)
    ip = 'INDEX/%s/%s' % (s, g)
    where = {ip, '/' + ip}
    pos = None
    with h5py.File(path, 'r+') as h:
        ig = h[ip]
        cnt = [src.counts[g].get(t, 0) for t in f.trains]
        has_count = 'count' in ig
        keys = [k for k in src.keys if src.group_of(k) == g]
        def ds(k):
            return 'INSTRUMENT/%s/%s' % (s, k.replace('.', '/'))
        if kind == 'beyond-short':
            if not sum(cnt):
                return None
            k = rng.choice(keys)
            old = h[ds(k)]
            m = rng.choice([sum(cnt) - 1, 0, rng.randrange(sum(cnt))])
            dt = gen.VB if src.keys[k].dtype == 'str' else old.dtype
            shape = (m,) + old.shape[1:]
            del h[ds(k)]
            h.create_dataset(ds(k), shape, dtype=dt)
            where = {ds(k)}
            pos = (m == 0, len(keys))
        elif kind in ('beyond-count', 'beyond-wrap'):
            i = n - 1 if rng.random() < .6 else rng.randrange(n)
            where = {ds(k) for k in keys}
            c = cnt[i] + f.data_pad + sum(cnt) + 1 if kind == 'beyond-count' else 2 ** 64 - rng.randint(1, 2)
            if kind == 'beyond-wrap':
                where |= {ip}
            fst = int(ig['first'][i])
            if kind == 'beyond-wrap' and fst < 3:
                return None
            if has_count:
                ig['count'][i] = np.uint64(c)
            else:
                ig['last'][i] = np.uint64((fst + c - 1) % 2 ** 64)
                ig['status'][i] = 1
            pos = (i == 0, i == n - 1)
        elif kind == 'start':
            a = ig['first'][:]
            a[:n] += np.uint64(1)
            ig['first'][...] = a
            if not has_count:
                a = ig['last'][:]
                a[:n] += np.uint64(1)
                ig['last'][...] = a
        elif kind in ('gap', 'overlap'):
            i = rng.choice([1, n - 1, rng.randrange(1, n)])
            first = ig['first'][:]
            step = 1
            if kind == 'overlap' and first[i] < 1:
                return None
            sl = slice(i, n) if rng.random() < .6 else slice(i, i + 1)
            delta = np.uint64(step) if kind == 'gap' else np.uint64(2 ** 64 - 1)
            with np.errstate(all='ignore'):
                first[sl] = first[sl] + delta
                ig['first'][...] = first
                if not has_count:
                    last = ig['last'][:]
                    last[sl] = last[sl] + delta
                    ig['last'][...] = last
            pos = (i == 1, i == n - 1, cnt[i] == 0)
        elif kind in ('short', 'short-part'):
            m = rng.choice([n - 1, 0, rng.randrange(n)])
            parts = ['first', 'count'] if has_count else ['first', 'last', 'status']
            if kind == 'short-part':
                parts = rng.sample(parts, rng.randint(1, len(parts) - 1))
            for p in parts:
                v = ig[p][:m]
                del ig[p]
                ig[p] = v
            pos = (m == 0, m == n - 1, tuple(parts))
        elif kind == 'ndim':
            for p in list(ig):
                v = ig[p][:]
                del ig[p]
                ig[p] = v.reshape(-1, 1)
    used.add(f.name)
    return kind, path, where, (has_count, pos)


def reported(problems, fault):
    kind, path, where, _ = fault
    for p in problems:
        vals = {k: str(v) for k, v in p.items()}
        if kind.startswith('map-'):
            ok = any(os.path.basename(path) in v for v in vals.values())
        else:
            ok = any(v == path or os.path.realpath(v) == os.path.realpath(path) for v in vals.values())
        if ok and where is not None:
            ok = any(v.strip('/') in where for v in vals.values())
        if ok and re.search(WORDS[kind], p.get('msg', ''), re.I):
            return True
    return False


def validate_run(d, rng):
    """List of problems"""
    from karabo_data.validation import RunValidator, ValidationError
    rv = RunValidator(d)
    if rng.random() < .5:
        return list(rv.run_checks())
    try:
        rv.validate()
    except ValidationError as e:
        assert e.problems
        str(e)
        return list(e.problems)
    return []


def validate_file(path, rng):
    from karabo_data import H5File
    from karabo_data.validation import FileValidator, ValidationError
    fv = FileValidator(H5File(path).files[0])
    if rng.random() < .5:
        return list(fv.run_checks())
    try:
        fv.validate()
    except ValidationError as e:
        str(e)
        return list(e.problems)
    return []


def run_main(ctx, path, process=False):
    """(exit status, output) of the command"""
    ctx.count('main')
    if process:
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path))
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'karabo_data.validation', path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ctx.count('process')
        return p.returncode, p.stdout.decode(errors='replace')
    from karabo_data.validation import main
    with quiet() as (out, err):
        try:
            rc = main([path])
        except SystemExit as e:
            rc = e.code
    return (rc or 0), out.getvalue() + err.getvalue()


def run_case(case, ctx):
    from karabo_data import RunDirectory
    rng = rng_for(ID, *case)
    proc = case[0] == 'cmd'
    r, d = make_run(rng, ctx, ctrl_holes=rng.random() < .2, empty_file=.1)
    ctx.sample(r.describe())
    state = rng.choice(['nomap', 'map', 'map', 'stale', 'partial'])
    if state != 'nomap':
        RunDirectory(d)
    mp = os.path.join(d, 'karabo_data_map.json')
    if state == 'stale':
        f = rng.choice(r.files)
        p = os.path.join(d, f.name)
        os.utime(p, (1e9, 1e9 + rng.random()))
    elif state == 'partial':
        data = json.load(open(mp))
        json.dump(rng.sample(data, rng.randint(0, len(data))), open(mp, 'w'))
    if rng.random() < .2:
        open(os.path.join(d, 'notes.txt'), 'w').write('hello')
    before = digest(d)
    # sound data
    pr = validate_run(d, rng)
    ctx.count('sound_runs')
    ctx.check(not pr, 'sound-run', 'a sound run (%s) is reported: %r' % (state, pr[:3]), run=r.describe())
    for f in rng.sample(r.files, min(len(r.files), 3)):
        pr = validate_file(os.path.join(d, f.name), rng)
        ctx.count('sound_files')
        ctx.check(not pr, 'sound-file', 'sound file %s is reported: %r' % (f.name, pr[:3]), run=r.describe())
    if rng.random() < .4 or proc:
        path = d if rng.random() < .5 else os.path.join(d, rng.choice(r.files).name)
        rc, out = run_main(ctx, path, proc)
        ctx.check(rc == 0, 'sound-main', 'the command fails for sound data %s: status %r %s' % (path, rc, out[-600:]), run=r.describe())
    ctx.check(digest(d) == before, 'altered', 'validation altered the run directory: %r' % diff_keys(before, digest(d)))
    if ctx.violations:
        return
    # faults
    used, faults = set(), []
    for _ in range(1 if rng.random() < .7 else 2):
        for _ in range(10):
            x = inject(rng, r, d, rng.choice(KINDS), used)
            if x:
                faults.append(x)
                break
    if not faults:
        raise Skip
    if len(faults) > 1:
        ctx.count('double')
    # damage changes the size or time of a file: its entry in the map is discarded, not a problem
    before = digest(d)
    desc = [(k, os.path.basename(p), sorted(w or ()), c) for k, p, w, c in faults]
    pr = validate_run(d, rng)
    for x in faults:
        ctx.count('faults')
        if x[0].startswith('map-') and not map_valid(d, x):
            continue
        ctx.check(reported(pr, x), 'missed-' + x[0], 'fault %r is not reported for the run (%s); problems: %r' % (x, desc, pr[:4]), run=r.describe())
        ctx.count('run_reported')
        ctx.seen(x[0], x[3], len(faults))
    ok = {p for _, p, _, _ in faults}
    other = [p for p in pr if not any(os.path.realpath(str(v)) in map(os.path.realpath, ok) for v in p.values())
             and not ('directory' in p and any(x[0].startswith('tid-') for x in faults))
             and not ('directory' in p and {f.name for f in r.files} <= {os.path.basename(x[1]) for x in faults if x[0] == 'unusable'})]
    ctx.check(not other, 'wrong-file', 'problems reported for files without a fault: %r; faults %r' % (other[:3], desc), run=r.describe())
    for x in faults:
        if x[0] == 'unusable' or x[0].startswith('map-'):
            continue
        fp = validate_file(x[1], rng)
        ctx.count('file_reported')
        ctx.check(reported(fp, x), 'missed-' + x[0], 'fault %r is not reported for the file; problems: %r' % (x, fp[:4]), run=r.describe())
    if rng.random() < .4 or proc:
        x = rng.choice(faults)
        isfile = rng.random() < .5 and x[0] != 'unusable' and not x[0].startswith('map-')
        if isfile or not x[0].startswith('map-') or map_valid(d, x):
            rc, out = run_main(ctx, x[1] if isfile else d, proc)
            ctx.check(rc != 0, 'main-status', 'the command exits with %r for data with faults %r: %s' % (rc, desc, out[-500:]), run=r.describe())
            ctx.check(os.path.basename(x[1]) in out and (not x[2] or any(w in out for w in x[2])), 'main-output',
                      'the command does not name file and dataset of %r: %s' % (x, out[-1500:]))
    ctx.check(digest(d) == before, 'altered', 'validation altered the run directory: %r' % diff_keys(before, digest(d)))
    if rng.random() < .15:
        for f in os.listdir(d):
            if f.endswith('.h5'):
                os.unlink(os.path.join(d, f))
                with open(os.path.join(d, f), 'wb') as h:
                    h.write(b'x' * rng.choice([0, 100]))
        pr = validate_run(d, rng)
        ctx.count('nothing_usable')
        ctx.check(any(re.search('no usable', p.get('msg', ''), re.I) for p in pr), 'missed-no-usable', 'no usable file: problems %r' % pr[:3])
        names = {os.path.basename(str(p.get('file', ''))) for p in pr}
        ctx.check(names >= {f for f in os.listdir(d) if f.endswith('.h5')}, 'missed-unusable', 'unusable files not all reported: %r' % pr)


def map_valid(d, x):
    """Is the damaged map entry still one that would be used?"""
    try:
        e = [e for e in json.load(open(os.path.join(d, 'karabo_data_map.json'))) if e['filename'] == os.path.basename(x[1])][0]
        st = os.stat(x[1])
        return st.st_size == e['size'] and st.st_mtime == e['mtime']
    except (OSError, IndexError):
        return False


def diff_keys(a, b):
    return [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
