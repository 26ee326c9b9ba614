"""C26: data files are only read, nothing else is created, and 'with' closes them."""
import gc, hashlib, os, shutil, sys, tempfile
import numpy as np
import h5py
from ..util import *
from .. import det, gen, model, ops
from ..mapworld import Shim

ID = 'C26'
NEEDS_SHIM = True
RULE = ("random runs (plain directories and proposal layouts, some files symlinked or hard linked) x histories of API and command operations, valid and "
        "invalid; after each operation the directory tree, the stat data of data files and the intercepted system calls on them are compared, after the "
        "history their bytes; 'with' blocks left normally or by an exception with derived collections, iterations and dask arrays alive, then the open "
        "descriptors are inspected and the collection is used again; distinct by pairs of operations and by how a block was left")
ASSUME = ["access times are not modifications"]
cases = std_cases({'quick': 800, 'thorough': 12000})
MINIMUM = {'ops': 3500, 'opened_reading': 3500, 'blocks': 330, 'blocks_exception': 150, 'closed_files': 650, 'reused': 220, 'outputs': 280,
           'commands': 580, 'overwrites_refused': 60, 'hashed': 1500}


def tree(*roots):
    out = {}
    for root in roots:
        for dp, dns, fns in os.walk(root):
            for n in dns + fns:
                p = os.path.join(dp, n)
                out[p] = 'd' if n in dns and not os.path.islink(p) else 'f'
    return out


def stats(paths):
    out = {}
    for p in paths:
        try:
            st = os.lstat(p)
            out[p] = (st.st_size, st.st_mtime_ns, st.st_mode, st.st_ino, st.st_nlink, st.st_uid, st.st_gid, st.st_ctime_ns)
        except OSError as e:
            out[p] = e.errno
    return out


def hashes(paths):
    return {p: hashlib.sha1(open(p, 'rb').read()).hexdigest() if os.path.isfile(p) else None for p in paths}


def open_count(paths):
    real = {os.path.realpath(p): p for p in paths}
    out = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if t in real:
            out[t] = out.get(t, 0) + 1
    return out


def leaked(top, data, tmpdir):
    """Files other than the data files still open: outputs, maps, temporary files"""
    real = {os.path.realpath(p) for p in data}
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if t.startswith(top) and t not in real:
            out.append(os.path.relpath(t, top))
    return out


def run_case(case, ctx):
    import karabo_data
    from karabo_data import RunDirectory, H5File, lsxfel, validation, h5index, run_files_map
    from karabo_data.cli import make_virtual_cxi
    rng = rng_for(ID, *case)
    isdet = rng.random() < .45
    if isdet:
        r = det.gen_det_run(rng, max_trains=4, max_mods=3)
    else:
        r = gen.gen_run(rng, max_trains=6)
        if not r.sources:
            raise Skip
    base = ctx.dir('world')
    located = rng.random() < .3
    prop = os.path.join(base, 'gpfs', 'raw', 'SPB', '201901', 'p002012')
    d = os.path.join(prop, 'r0007') if located else os.path.join(base, 'prop', rng.choice(['raw', 'proc']), 'r0007')
    os.makedirs(d)
    if not located:
        os.makedirs(os.path.join(base, 'prop', 'scratch'))
    scratchroot = os.path.join(base, 'exp')
    has_scratch = located and rng.random() < .6
    if has_scratch:
        os.makedirs(os.path.join(scratchroot, 'SPB', '201901', 'p002012', 'scratch'))
    r.write(d)
    if rng.random() < .15:
        with open(os.path.join(d, 'RAW-R0001-DA99-S00000.h5'), 'wb') as f:
            f.write(b'junk' * 300)
    if rng.random() < .15 and r.trains:
        ctx.count('sourceless')
        with h5py.File(os.path.join(d, 'RAW-R0001-DA98-S00000.h5'), 'w') as f:
            f['INDEX/trainId'] = np.array(r.trains, 'u8')
            f.create_dataset('METADATA/dataSourceId', (0,), 'S64')
    store = os.path.join(base, 'store')
    os.mkdir(store)
    for f in r.files:           # archived data may be behind links
        p = os.path.join(d, f.name)
        x = rng.random()
        if x < .1:
            os.rename(p, os.path.join(store, f.name))
            os.symlink(os.path.join(store, f.name), p)
        elif x < .15:
            os.link(p, os.path.join(store, f.name))
    data = [os.path.join(d, n) for n in os.listdir(d)] + [os.path.join(store, n) for n in os.listdir(store)]
    for p in data:
        t = 1500000000 * 10 ** 9 + rng.randrange(10 ** 16)
        os.utime(p, ns=(t, t), follow_symlinks=True)
    ctx.sample(r.describe())
    outdir, cwd, tmpdir, home = ctx.dir('out'), ctx.dir('cwd'), ctx.dir('tmp'), ctx.dir('home')
    allowed_map = [os.path.join(d, 'karabo_data_map.json')]
    if has_scratch:
        m = os.path.join(scratchroot, 'SPB', '201901', 'p002012', 'scratch', '.karabo_data_maps')
        allowed_map += [m, os.path.join(m, 'raw_r0007.json')]
    shim = Shim()
    old = (os.getcwd(), tempfile.tempdir, os.environ.get('HOME'), getattr(run_files_map, 'SCRATCH_ROOT_DIR', None))
    os.chdir(cwd)
    tempfile.tempdir = tmpdir
    os.environ['HOME'] = home
    if old[3] is not None:
        run_files_map.SCRATCH_ROOT_DIR = scratchroot + '/'
    h0 = hashes(data)
    state = dict(known=set(tree(ctx.tmp)), last='start', stat=stats(data), log=[])

    def audit(op, produces=()):
        """After each operation"""
        ctx.count('ops')
        n = shim.disarm()
        ctx.count('opened_reading', n)
        tr = shim.trace()
        state['log'].append(op)
        hist = ' | '.join(map(str, state['log'][-6:]))
        ctx.check(not tr, 'syscall', '%s: calls which can change data files: %r' % (op, tr), history=hist)
        s = stats(data)
        ctx.check(s == state['stat'], 'stat', '%s changed %r' % (op, [(os.path.basename(p), state['stat'][p], s[p]) for p in data if s[p] != state['stat'][p]][:2]),
                  history=hist)
        now = set(tree(ctx.tmp))
        ok = set(produces) | set(allowed_map)
        extra = {p for p in now - state['known'] if p not in ok}
        ctx.check(not extra, 'created', '%s created %r' % (op, sorted(os.path.relpath(p, ctx.tmp) for p in extra)), history=hist)
        gone = state['known'] - now - set(allowed_map)
        ctx.check(not gone, 'removed', '%s removed %r' % (op, sorted(os.path.relpath(p, ctx.tmp) for p in gone)), history=hist)
        state['known'] = now
        ctx.seen(state['last'], str(op).split()[0])
        state['last'] = str(op).split()[0]
        shim.arm('-S0', 0, 'LOG')       # all names of data files contain this

    serial = [0]

    def do_op(dc, what):
        op = ops.choose_op(rng, r, dc)
        serial[0] += 1
        if rng.random() < .25 and dc.all_sources:
            op = (rng.choice(['write', 'write_virtual']),)
        if op[0] in ('train',) and rng.random() < .1:
            op = ('array', 'NO/SUCH/SOURCE', 'x', None)
        x, res = ops.outcome(dc, op, outdir, serial[0])
        prod = []
        p = {'write': 'write%d.h5', 'write_virtual': 'write_virtual%d.h5', 'vds': 'vds%d.h5', 'cxi': 'cxi%d.cxi'}.get(op[0])
        if p:
            prod = [os.path.join(outdir, p % serial[0])]
            if res[0] != 'raises':
                ctx.count('outputs')
        audit('%s %r' % (op[0], what), prod)
        return x

    def command():
        ctx.count('commands')
        k = rng.choice(['lsxfel', 'lsxfel2', 'validate', 'validate_run', 'h5index', 'cxi', 'cxi', 'fv', 'open_run', 'bad'])
        prod = []
        f = os.path.join(d, rng.choice(r.files).name)
        with quiet():
            try:
                if k == 'lsxfel':
                    lsxfel.main([rng.choice([d, f, os.path.dirname(d), os.path.dirname(os.path.dirname(d))])])
                elif k == 'lsxfel2':
                    lsxfel.main([d, f])
                elif k == 'validate':
                    validation.main([f])
                elif k == 'validate_run':
                    validation.main([d])
                elif k == 'h5index':
                    argv, sys.argv = sys.argv, ['h5index', f]
                    try:
                        h5index.main()
                    finally:
                        sys.argv = argv
                elif k == 'cxi':
                    args = [d, '--min-modules', '1']
                    if rng.random() < .6 or located:
                        prod = [os.path.join(outdir, 'cmd%d.cxi' % len(state['log']))]
                        args += ['-o', prod[0]]
                    else:
                        prod = [os.path.join(base, 'prop', 'scratch', 'r0007_%s_detectors_virt.cxi' % os.path.basename(os.path.dirname(d)))]
                    make_virtual_cxi.main(args)
                elif k == 'fv':
                    validation.FileValidator(H5File(f).files[0]).run_checks()
                elif k == 'open_run':
                    if located:
                        RunDirectory(d, include='*S00000*')
                    else:
                        karabo_data.open_run(os.path.join(base, 'prop'), 7, data=os.path.basename(os.path.dirname(d)))
                else:
                    RunDirectory(d, include='nothing*')
            except (Exception, SystemExit) as e:
                if k in ('lsxfel', 'lsxfel2', 'h5index', 'open_run'):
                    raise
        audit('command:%s' % k, prod)

    try:
        shim.arm('-S0', 0, 'LOG')
        if rng.random() < .6:
            block(rng, ctx, r, d, data, do_op, audit, state)
        members = []
        for _ in range(rng.randint(3, 9)):
            if len(ctx.violations) > 3:
                break
            x = rng.random()
            if x < .25:
                command()
            elif x < .4 or not members:
                try:
                    rec = ops.choose_root(rng, r)
                    with quiet():
                        members.append(ops.build(rec, r, d))
                except Exception as e:
                    if 'No HDF5 files' not in str(e):
                        raise
                audit('open %r' % (rec,))
            elif x < .5:
                dc = rng.choice(members)
                rec = ops.choose_step(rng, dc, ('run',), [])
                try:
                    members.append(ops.derive(rec, [dc], r))
                except (ValueError, KeyError):
                    pass
                audit('derive %r' % (rec,))
            elif x < .55 and len(members) > 1:
                members.append(members[0].union(members[-1]))
                audit('union')
            elif x < .6:
                dc = rng.choice(members)
                for f in dc.files:
                    f.close()
                audit('close')
            elif x < .65:
                block(rng, ctx, r, d, data, do_op, audit, state)
            elif x < .7 and members:
                overwrite(rng, ctx, rng.choice(members), r, d, data, shim, audit, state)
            elif x < .75 and os.listdir(outdir):
                # write over, or into the run directory next to the data
                dc = rng.choice(members)
                p = os.path.join(d, 'added.h5') if rng.random() < .3 else os.path.join(outdir, rng.choice(os.listdir(outdir)))
                if dc.all_sources and not os.path.exists(os.path.join(d, 'added.h5')) and len(dc.train_ids):
                    try:
                        rng.choice([dc.write, dc.write_virtual])(p)
                    except Exception as e:
                        pass
                    audit('rewrite %s' % os.path.basename(p), [p])
                    if p.startswith(d):
                        os.unlink(p)
                        state['known'].discard(p)
            else:
                do_op(rng.choice(members), 'plain')
        del members
        gc.collect()
        audit('end')
        shim.disarm()
        left = leaked(ctx.tmp, data, tmpdir)
        ctx.count('descriptors_checked')
        ctx.check(not left, 'left-open', 'after %r, with nothing in use any more, %r are still open' % (state['log'], left))
        h1 = hashes(data)
        ctx.count('hashed', len(data))
        ctx.check(h0 == h1, 'bytes', 'after %r the contents of %r changed' % (state['log'], [p for p in data if h0[p] != h1[p]]))
    finally:
        shim.disarm()
        os.chdir(old[0])
        tempfile.tempdir = old[1]
        if old[2] is not None:
            os.environ['HOME'] = old[2]
        if old[3] is not None:
            run_files_map.SCRATCH_ROOT_DIR = old[3]


def overwrite(rng, ctx, dc, r, d, data, shim, audit, state):
    """An output onto one of the collection's own files is refused"""
    if not dc.files:
        return
    f = rng.choice(dc.files)
    if rng.random() < .7:       # with files open, HDF5 refuses; opened from the run files map they may not be
        for g in dc.files:
            g.close()
        try:
            with quiet():
                fresh = ops.build(('run',), r, d)
        except Exception as e:
            if 'No HDF5 files' not in str(e):
                raise
            fresh = dc
        f = rng.choice(fresh.files)
        if rng.random() < .5 and fresh.all_sources:
            s = rng.choice(sorted(fresh.all_sources))
            fresh = fresh.select(s, '*')
            f = rng.choice(fresh.files)
        dc = fresh
        del fresh
    p = f.filename
    how = rng.choice(['path', 'path', 'link', 'hard', 'dots', 'relative'])
    link = None
    cwd = os.getcwd()
    if how in ('link', 'hard'):
        link = os.path.join(cwd, 'output.h5')
        if how == 'link':
            os.symlink(p, link)
        else:
            shim.disarm()
            os.link(os.path.realpath(p), link)
            shim.arm('-S0', 0, 'LOG')
            state['stat'] = stats(data)
        p = link
        state['known'].add(link)
    elif how == 'dots':
        p = os.path.join(os.path.dirname(p), '.', os.path.basename(p))
    elif how == 'relative':
        p = os.path.relpath(p, cwd)
    kind = rng.choice(['write', 'write_virtual', 'vds'])
    try:
        if kind == 'vds':
            s = rng.choice(sorted(dc.all_sources) or [None])
            ks = sorted(dc.keys_for_source(s)) if s else []
            if not ks:
                kind = 'write'
        if kind == 'vds':
            dc.get_virtual_dataset(s, rng.choice(ks), filename=p)
        else:
            getattr(dc, kind)(p)
        ctx.check(False, 'overwritten', '%s to %r, a file of the collection, did not fail' % (kind, p))
    except Exception:
        pass
    ctx.count('overwrites_refused')
    ctx.seen('overwrite', kind, how)
    audit('overwrite %s %s' % (kind, how))
    if link:
        os.unlink(link)
        state['known'].discard(link)
        if how == 'hard':
            state['stat'] = stats(data)


class Leave(Exception):
    pass


def block(rng, ctx, r, d, data, do_op, audit, state):
    """A 'with' block on an opened collection"""
    from karabo_data import RunDirectory, H5File
    gc.collect()
    before = open_count(data)
    rec = rng.choice([('run',), ('run',), ('file', rng.choice(r.files).name), ('include', '*S00000.h5')])
    try:
        with quiet():
            dc = ops.build(rec, r, d)
    except Exception as e:
        if 'No HDF5 files' in str(e):
            return
        raise
    held = []
    how = rng.choice(['normal', 'normal', 'exception', 'error'])
    ctx.count('blocks')
    try:
        with dc as inside:
            ctx.check(inside is dc, 'enter', 'with gives %r' % inside)
            for _ in range(rng.randint(0, 4)):
                x = rng.random()
                if x < .25:
                    it = iter(dc.trains())
                    held.append(it)
                    held.append(next(it, None))
                elif x < .4 and dc.all_sources:
                    s = rng.choice(sorted(dc.all_sources))
                    ks = sorted(dc.keys_for_source(s))
                    if ks:
                        held.append(dc.get_dask_array(s, rng.choice(ks)))
                elif x < .6:
                    try:
                        held.append(ops.derive(ops.choose_step(rng, dc, rec, []), [dc], r))
                        held.append(do_op(held[-1], 'derived'))
                    except (ValueError, KeyError):
                        pass
                elif x < .7:
                    for f in dc.files:
                        held.append(f.file['INDEX'])
                else:
                    held.append(do_op(dc, 'in block'))
            inner = sum(open_count(data).values())
            if how == 'exception':
                ctx.count('blocks_exception')
                raise Leave
            if how == 'error':
                ctx.count('blocks_exception')
                dc.get_array('NO/SUCH', 'thing')
    except Leave:
        pass
    except LookupError:
        pass
    after = open_count(data)
    ctx.count('closed_files', max(0, inner - sum(after.values())))
    left = {os.path.basename(p): n for p, n in after.items() if n > before.get(p, 0)}
    ctx.check(not left, 'left-open', "after leaving a 'with' block on %r (%s), still open: %r" % (rec, how, left), run=r.describe())
    ctx.seen('block', rec[0], how, len(held), inner - sum(after.values()) > 0)
    audit('block %s' % how)
    # using it again works
    if rng.random() < .7:
        ctx.count('reused')
        tids = [int(t) for t in dc.train_ids]
        if tids:
            tid = rng.choice(tids)
            names = {os.path.basename(f.filename) for f in dc.files}
            t, vals = dc.train_from_id(tid)
            for s in vals:
                have = any(s in f.sources and tid in f.trains and f.name in names for f in r.files)
                for k in r.sources[s].keys:
                    a = r.sources[s].data[k].get(tid) if have else None
                    e = None if a is None or not len(a) else (a[0] if len(a) == 1 else a)
                    g = vals[s].get(k)
                    ctx.check((e is None) == (g is None) and (e is None or model.same(np.asarray(g), np.asarray(e))), 'reuse',
                              'after the block, train %d %s %s is %r instead of %r' % (tid, s, k, g, e))
        got = [t for t, _ in dc.trains()]
        ctx.check(got == tids, 'reuse', 'after the block, iteration gives %r instead of %r' % (got, tids))
        if rng.random() < .5:
            held.clear()
        with dc:
            pass
        after = open_count(data)
        left = {os.path.basename(p): n for p, n in after.items() if n > before.get(p, 0)}
        ctx.check(not left, 'left-open', "after a second 'with' block on %r, still open: %r" % (rec, left), run=r.describe())
    audit('block end')
