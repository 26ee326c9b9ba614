"""C28 Exported images and listings show exactly what a file holds"""
import csv, hashlib, io, os, contextlib, random, subprocess, sys, warnings
import h5py
import numpy as np
from ..core import Skip
from ..util import quiet

ID = 'C28'
LEVEL = 'exploration'
RULE = ('random files (both format versions, several sources in any order, image data of the integer types) converted to CBF '
        'at random indexes and read with fabio; random walks over stacks of images (next, previous, positions in and out of '
        'range, single displays, new stacks) looked at through matplotlib; random trees of groups and datasets listed by both '
        'functions and the command; distinct by dtype, shape and operation sequence')
ASSUME = ['images of whole numbers which fit in 32 bits (CBF holds integers)', 'the first source with image data is the one converted']
MINIMUM = {'cbf': 150, 'numpy_cbf': 100, 'shown': 1200, 'refused': 100, 'listed': 600, 'ends': 100, 'headers': 70, 'command': 3}


def cases(tier, seed):
    n = 60 if tier == 'quick' else 900
    return ([('cbf', seed, i) for i in range(n)] + [('view', seed, i) for i in range(n)] + [('list', seed, i) for i in range(n)]
            + [('cmd', seed, i) for i in range(2 if tier == 'quick' else 20)])


def run_case(case, ctx):
    kind, seed, i = case
    rng = random.Random('C28-%r' % (case,))
    {'cbf': cbf, 'view': view, 'list': listing, 'cmd': listing}[kind](rng, ctx, kind == 'cmd')


def images(rng, dtype, n=None, shape=None):
    n = n or rng.randint(1, 6)
    shape = shape or (rng.randint(1, 9), rng.randint(1, 9))
    info = np.iinfo(dtype)
    lo, hi = max(info.min, -2**31), min(info.max, 2**31 - 1)
    style = rng.choice(['any', 'any', 'small', 'steps'])
    r = np.random.RandomState(rng.getrandbits(32))
    a = r.randint(lo, hi, size=(n,) + shape, dtype='i8', endpoint=True) if False else r.randint(lo, hi + 1, size=(n,) + shape, dtype='i8')
    if style == 'small':
        a = np.clip(r.randint(0, 50, size=a.shape), lo, hi)
    elif style == 'steps':       # the differences of neighbours around the limits of 1 and 2 bytes
        a = np.clip(np.cumsum(r.choice([-129, -128, -127, 0, 1, 127, 128, 129, 32767, 32768, -32768, -32769], size=a.shape), axis=-1), lo, hi)
    return a.astype(dtype)


VB = h5py.special_dtype(vlen=bytes)


def write_file(path, rng, srcs, version):
    with h5py.File(path, 'w') as f:
        root = 'METADATA/' if version == '0.5' else 'METADATA/dataSources/'
        ids = [s for s, _ in srcs]
        pad = rng.choice([0, 0, 3])
        d = f.create_dataset(root + 'dataSourceId', (len(ids) + pad,), dtype=VB)
        d[:len(ids)] = [i.encode() for i in ids]
        if version != '0.5':
            f.create_dataset('METADATA/dataFormatVersion', (1,), dtype=VB)[0] = version.encode()
        for s, a in srcs:
            if a is not None:
                f[s + '/data'] = a
        f['INDEX/trainId'] = np.arange(10, 13, dtype='u8')


def cbf(rng, ctx, _):
    import fabio
    from karabo_data.utils import hdf5_to_cbf, numpy_to_cbf
    d = ctx.dir()
    dtype = rng.choice(['u1', 'u2', 'i2', 'i4', 'i4', 'u2'])
    a = images(rng, dtype)
    version = rng.choice(['0.5', '1.0', '1.1'])
    srcs = []
    if rng.random() < .5:
        srcs.append(('CONTROL/A/B/C', None))
    if rng.random() < .4:
        srcs.append(('INSTRUMENT/FXE_DET_LPD1M-1/DET/0CH0:xtdf/header', None))
    if rng.random() < .4:      # other data of sources called after images
        srcs.insert(rng.randint(0, len(srcs)), (rng.choice([
            'CONTROL/A/image/1', 'CONTROL/FXE_DET/image/DATA', 'INSTRUMENT/A/image/1:out/data', 'INSTRUMENT/A/B/imager:out/header',
            'INSTRUMENT/FXE_DET_LPD1M-1/DET/0CH0:xtdf/image2', 'INSTRUMENT/image/CAM/1:image/trailer']), images(rng, dtype) if rng.random() < .7 else None))
    srcs.append(('INSTRUMENT/FXE_DET_LPD1M-1/DET/%dCH0:xtdf/image' % rng.randint(0, 15), a))
    if rng.random() < .5:
        srcs.append((rng.choice(['INSTRUMENT/Z/CAM/1:out/data', 'CONTROL/Z/Y/X', 'INSTRUMENT/Z/CAM/1:out/trailer']), None))
    path = os.path.join(d, rng.choice(['a.h5', 'RAW-R0001-LPD00-S00000.h5', 'x y.h5']))
    write_file(path, rng, srcs, version)
    before = hashlib.sha256(open(path, 'rb').read()).hexdigest()
    for _ in range(2):
        ix = rng.randrange(len(a))
        out = os.path.join(d, rng.choice(['o.cbf', 'p.cbf']))
        header = rng.choice([None, None, {'origin': 'run 12'}])
        with quiet() as (buf, err):
            if header:
                hdf5_to_cbf(path, out, ix, header=header)
                ctx.count('headers')
            else:
                hdf5_to_cbf(path, out, ix)
        ctx.count('cbf')
        compare(ctx, fabio, out, a[ix], 'hdf5_to_cbf of entry %d of %r (format %s)' % (ix, a.shape, version))
        ctx.check(path in buf.getvalue() and out in buf.getvalue() and str(ix) in buf.getvalue(), 'message', 'printed %r' % buf.getvalue())
        if header:
            with quiet():
                h = ' '.join(map(str, fabio.open(out).header.values()))
            ctx.check('run 12' in h, 'header', 'the header given is not in the file: %s' % h)
        ctx.seen('cbf', dtype, a.shape, ix, version, len(srcs))
    ctx.check(hashlib.sha256(open(path, 'rb').read()).hexdigest() == before, 'modified', 'the data file was modified')
    # a stack in memory
    src = rng.choice([a, a, np.asfortranarray(a), a[:, ::-1], a[..., ::2]])
    keep = src.copy()
    ix = rng.randrange(len(a))
    header = rng.choice([None, {}, {'origin': 'run 12'}])
    out = os.path.join(d, 'n.cbf')
    with quiet():
        c = numpy_to_cbf(src, header=header, index=ix) if rng.random() < .7 or ix else numpy_to_cbf(src, header=header)
        got = np.asarray(c.data)
        c.write(out)
    ctx.count('numpy_cbf')
    ctx.check(np.array_equal(got, keep[ix]), 'cbf-object', 'numpy_to_cbf of entry %d of %r has other data' % (ix, keep.shape))
    compare(ctx, fabio, out, keep[ix], 'numpy_to_cbf of entry %d of %r' % (ix, keep.shape))
    if header:
        with quiet():
            h = ' '.join(map(str, fabio.open(out).header.values()))
        ctx.check('run 12' in h, 'header', 'the header given is not in the file: %s' % h)
    ctx.check(np.array_equal(src, keep), 'modified', 'numpy_to_cbf modified its input')


def compare(ctx, fabio, path, want, what):
    with quiet():
        got = fabio.open(path).data
    ok = got.shape == want.shape and np.array_equal(got.astype('i8'), want.astype('i8'))
    ctx.check(ok, 'cbf-pixels', '%s: image %r reads back as %r' % (what, want.tolist(), got.tolist()))
    ctx.count('pixels', want.size)


def view(rng, ctx, _):
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    from karabo_data.utils import QuickView
    plt.close('all')
    a = images(rng, rng.choice(['u1', 'u2', 'i4']))
    if rng.random() < .4:
        a = (a / 3).astype('f4')
    keep = a.copy()
    with quiet():
        if rng.random() < .5:
            q = QuickView(a)
        else:
            q = QuickView()
            ctx.check(q.data is None and q.pos == 0, 'empty', 'new view is not empty')
            q.data = a
    pos, vis, log = 0, 0, []        # vis: the image shown, which display(n) changes without moving

    def shown(want, label):
        im = plt.gca().images
        got = np.asarray(im[-1].get_array()) if im else None
        ctx.count('shown')
        ctx.check(got is not None and got.shape == want.shape and np.array_equal(got, want), 'shown-image',
                  'after %s the image shown is not entry %d' % (log, label))
        t = plt.gca().get_title()
        ctx.check(t.split(':')[-1].strip() == str(label), 'shown-title', 'title %r for entry %d after %s' % (t, label, log))

    shown(a[0], 0)
    for _ in range(rng.randint(5, 14)):
        op = rng.choice(['next', 'next', '__next__', 'prev', 'pos', 'bad', 'display', 'data', 'len'])
        log.append(op)
        with quiet():
            if op in ('next', '__next__'):
                next(q) if op == '__next__' else q.next()
                if pos == len(a) - 1:
                    ctx.count('ends')
                else:
                    pos += 1
                    vis = pos
                shown(a[vis], vis)
            elif op == 'prev':
                q.prev()
                if pos:
                    pos -= 1
                    vis = pos
                shown(a[vis], vis)
            elif op == 'pos':
                pos = rng.choice([0, len(a) - 1, rng.randrange(len(a))])
                q.pos = vis = pos
                shown(a[pos], pos)
            elif op == 'bad':
                p = rng.choice([-1, len(a), len(a) + 3, -len(a)])
                ctx.count('refused')
                try:
                    q.pos = p
                except ValueError:
                    pass
                else:
                    ctx.violation('bad-position', 'position %d of %d images is accepted' % (p, len(a)))
                bad = rng.choice([4, a[0], a[np.newaxis], a.tolist()])
                try:
                    q.data = bad
                except TypeError:
                    pass
                else:
                    ctx.violation('bad-data', 'data which is no stack of images is accepted')
                ctx.check(q.data is a, 'data', 'data was replaced')
            elif op == 'display':
                i = rng.randrange(len(a))
                q.display(i)
                vis = i
                shown(a[i], i)
            elif op == 'data':
                ctx.check(np.array_equal(a, keep), 'modified', 'the images were modified')
                a = images(rng, rng.choice(['u1', 'u2', 'i4']))
                keep = a.copy()
                q.data = a
                pos = vis = 0
                shown(a[0], 0)
            else:
                ctx.check(len(q) == len(a), 'len', '%d for %d images' % (len(q), len(a)))
        ctx.check(q.pos == pos, 'position', 'position %r instead of %d after %s' % (q.pos, pos, log))
    ctx.check(np.array_equal(a, keep), 'modified', 'the images were modified')
    ctx.seen('view', tuple(log))
    plt.close('all')


def tree(rng, f, prefix, depth, out):
    for n in rng.sample(['a', 'b', 'image', 'data', 'x y', 'Z', 'pulseId', 'trainId', 'k,l', 'q"r', 'é'], rng.randint(0, 5)):
        p = prefix + n
        if depth < 3 and rng.random() < .5:
            f.create_group(p)
            out.append((p, None, None))
            tree(rng, f, p + '/', depth + 1, out)
        else:
            shape = tuple(rng.choice([0, 1, 2, 5, 300]) for _ in range(rng.randint(0, 3)))
            dt = np.dtype(rng.choice(['u1', '<u2', '>u2', 'i4', 'f4', '>f8', '?', 'S5', 'u8']))
            f.create_dataset(p, shape=shape, dtype=dt)
            out.append((p, shape, dt))


def listing(rng, ctx, command):
    from karabo_data.h5index import hdf5_datasets
    from karabo_data.utils import hdf5_paths
    d = ctx.dir()
    path = os.path.join(d, 't.h5')
    out = []
    with h5py.File(path, 'w') as f:
        tree(rng, f, '', 0, out)
    before = hashlib.sha256(open(path, 'rb').read()).hexdigest()
    want = sorted([p, str(s), t.str] for p, s, t in out if s is not None)
    if command:
        r = subprocess.run([sys.executable, '-m', 'karabo_data.h5index', path], capture_output=True, text=True, timeout=120,
                           env=dict(os.environ, PYTHONIOENCODING='utf8'))
        ctx.check(r.returncode == 0, 'command', 'h5index failed: ' + r.stderr[-500:])
        text = r.stdout
        ctx.count('command')
    else:
        buf = io.StringIO()
        with h5py.File(path, 'r') as f, contextlib.redirect_stdout(buf):
            hdf5_datasets(f)
        text = buf.getvalue()
    rows = list(csv.reader(io.StringIO(text)))
    ctx.check(rows[:1] == [['path', 'shape', 'dtype']], 'heading', 'first line %r' % rows[:1])
    ctx.check(sorted(rows[1:]) == want, 'datasets', 'listed %r for %r' % (rows[1:], want))
    ctx.check([r[0] for r in rows[1:]] == sorted(r[0] for r in rows[1:]), 'order', 'paths not in order: %r' % rows)
    ctx.count('listed', len(want))
    # all paths; the name of each appears with the indent of its level
    buf = io.StringIO()
    with h5py.File(path, 'r') as f, contextlib.redirect_stdout(buf):
        hdf5_paths(f)
    lines = buf.getvalue().split('\n')
    for p, s, t in out:
        n = p.count('/')
        ctx.check(' ' * 4 * n + p.split('/')[-1] in lines, 'paths', '%s is not listed in %r' % (p, lines))
    names = {' ' * 4 * p.count('/') + p.split('/')[-1] for p, _, _ in out}
    ctx.check(set(l for l in lines if l) == names, 'paths-extra', 'listed %r for %r' % (lines, sorted(names)))
    ctx.check(hashlib.sha256(open(path, 'rb').read()).hexdigest() == before, 'modified', 'the data file was modified')
    ctx.seen('list', tuple(sorted(names)))
