"""C12: opening finds all usable files, in any layout, by any spelling."""
import fnmatch, os, shutil
import h5py
import numpy as np
from ..util import *

ID = 'C12'
RULE = ("random raw and proc runs (mixed file format versions, index styles, paddings, sequence splits, file name patterns) in a "
        "proposal tree with similarly named neighbours and unusable files of 12 kinds, opened in every accepted spelling, file by "
        "file, by from_paths in any order and with include patterns; distinct by (mix of versions and index styles, junk kinds, spelling)")
ASSUME = ["the roots searched for proposals are redirected to a scratch tree by replacing karabo_data.read_machinery.DATA_ROOT_DIR, as the tests do"]
cases = std_cases({'quick': 260, 'thorough': 5000})
MINIMUM = {'opens': 1200, 'junk_files': 250, 'all_unusable': 20, 'spellings': 600, 'mixed_layouts': 40}

JUNK = ['empty', 'text', 'trunc', 'nometa', 'noindex', 'badcat', 'dir', 'danglink', 'hdf5-empty', 'headonly', 'badversion', 'notrains']


def make_junk(rng, kind, path, good):
    if kind == 'empty':
        open(path, 'w').close()
    elif kind == 'text':
        with open(path, 'w') as f:
            f.write('this is not HDF5\n' * 100)
    elif kind in ('trunc', 'headonly'):
        data = open(good, 'rb').read()
        with open(path, 'wb') as f:
            f.write(data[:8 if kind == 'headonly' else rng.randint(9, len(data) * 9 // 10)])
    elif kind == 'dir':
        os.mkdir(path)
    elif kind == 'danglink':
        os.symlink('/nonexistent/' + os.path.basename(path), path)
    elif kind == 'hdf5-empty':
        h5py.File(path, 'w').close()
    else:
        shutil.copyfile(good, path)
        with h5py.File(path, 'r+') as f:
            v1 = 'METADATA/dataFormatVersion' in f
            p = 'METADATA/dataSources/dataSourceId' if v1 else 'METADATA/dataSourceId'
            if kind == 'nometa':
                del f['METADATA']
            elif kind == 'noindex':
                del f['INDEX']
            elif kind == 'notrains':
                del f['INDEX/trainId']
            elif kind == 'badcat':
                ids = list(f[p][:])
                if not ids:
                    del f['METADATA']
                else:
                    ids[0] = b'STRANGE/' + ids[0].split(b'/', 1)[-1] if ids[0] else b'STRANGE/A/B'
                    del f[p]
                    f[p] = [bytes(x) for x in ids]
            elif kind == 'badversion':
                # says the other version than its layout
                if v1:
                    del f['METADATA/dataFormatVersion']
                else:
                    f['METADATA/dataFormatVersion'] = np.array([b'1.0'])


def compare(rng, ctx, r, dc, what):
    view = model.View(r)
    tids = [int(t) for t in dc.train_ids]
    c = {s for s in r.sources if r.sources[s].kind == 'C'}
    i = set(r.sources) - c
    ok = ctx.check(tids == r.trains, 'trains', '%s: %r instead of %r' % (what, tids, r.trains), run=r.describe())
    ok &= ctx.check(set(dc.control_sources) == c and set(dc.instrument_sources) == i and set(dc.all_sources) == c | i, 'sources',
                    '%s: %r, %r instead of %r, %r' % (what, sorted(dc.control_sources), sorted(dc.instrument_sources), sorted(c), sorted(i)),
                    run=r.describe())
    ctx.count('opens')
    if not ok:
        return
    for s in r.sources:
        ctx.check(set(dc.keys_for_source(s)) == set(r.sources[s].keys), 'keys', '%s: keys of %s' % (what, s), run=r.describe())
    fl = fields(r)
    for s, k in rng.sample(fl, min(3, len(fl))):
        exp, t = view.array(s, k)
        a = dc.get_array(s, k)
        ctx.check(model.same(a.values, exp), 'array', '%s: %s %s: %s' % (
            what, s, k, '' if model.same(a.values, exp) else model.diff(a.values, exp)), run=r.describe())
        cn = {int(x): int(n) for x, n in dc.get_data_counts(s, k).items()}
        ex = view.counts(s, k)
        ctx.check({x: n for x, n in cn.items() if n} == {x: n for x, n in ex.items() if n}, 'counts', '%s: %s %s: %r instead of %r' % (what, s, k, cn, ex), run=r.describe())


def subrun(r, names):
    n = gen.Run()
    n.files = [f for f in r.files if f.name in names]
    for f in n.files:
        for s in f.sources:
            n.sources[s] = r.sources[s]
    # only these files' trains count
    out = gen.Run()
    out.files = n.files
    for sn, s in n.sources.items():
        t = set().union(*[f.trains for f in n.files if sn in f.sources])
        m = out.sources[sn] = gen.Source(s.name, s.kind, list(s.keys.values()), s.pulse_groups)
        for g in s.groups:
            m.counts[g] = {x: c for x, c in s.counts[g].items() if x in t}
        for k in s.keys:
            m.data[k] = {x: c for x, c in s.data[k].items() if x in t}
    return out


def run_case(case, ctx):
    from unittest import mock
    from karabo_data import RunDirectory, H5File, open_run
    from karabo_data.reader import DataCollection
    rng = rng_for(ID, *case)
    base = ctx.dir('root')
    prop, runno = rng.choice([2012, 1, 700000, 12345]), rng.choice([1, 17, 243, 12000])
    pname, rname = 'p%06d' % prop, 'r%04d' % runno
    pdir = os.path.join(base, rng.choice(['SPB', 'FXE', 'XMPL']), rng.choice(['201701', '202401']), pname)
    runs = {}
    for kind in ('raw', 'proc'):
        r = runs[kind] = gen.gen_run(rng, max_trains=7, prefix='RAW' if kind == 'raw' else 'CORR', empty_file=.1)
        if not r.sources:
            raise Skip
        d = os.path.join(pdir, kind, rname)
        os.makedirs(d)
        for f in r.files:          # any mixture of layouts
            if rng.random() < .6:
                f.version = rng.choice(['0.5', '1.0', '1.0', '1.1', '1.2'])
                f.index = rng.choice(['count', 'status'])
                f.pad = rng.choice([0, 1, 5, 64])
        r.write(d)
        lay = {(f.version, f.index) for f in r.files}
        if len(lay) > 1:
            ctx.count('mixed_layouts')
    # neighbours which must not be confused with it
    for q in ('p%06d' % (prop + 1), 'p1%05d' % (prop % 100000), 'p%06d' % (prop * 10 % 1000000)):
        if q != pname:
            os.makedirs(os.path.join(base, 'XMPL', '201999', q, 'raw', rname), exist_ok=True)
    # and names which only contain the wanted one; a real run is behind some of them
    for q in (pname, 'p%06d' % (prop + 3)):
        for n in range(rng.choice([0, 1, 3])):
            dn = rng.choice([q + '_old', q + '0', q + '-2', q + '.bak', 'x' + q, 'p' + q, q[:-1], q + ' '])
            p = os.path.join(base, rng.choice(['SPB', 'FXE', 'XMPL', 'AAA', 'zzz']), rng.choice(['201701', '202401', '2']), dn, 'raw')
            os.makedirs(p, exist_ok=True)
            if rng.random() < .7 and not os.path.lexists(os.path.join(p, rname)):
                os.symlink(os.path.join(pdir, 'raw', rng.choice([rname, 'r%04d' % (runno + 1)])), os.path.join(p, rname))
    for x in (rname, 'r%04d' % (runno + 7)):
        for dn in rng.sample([x + '_old', x + '0', 'x' + x, x[:-1], x + '.h5', 'r' + x], 2):
            for kind in ('raw', 'proc'):
                os.path.lexists(os.path.join(pdir, kind, dn)) or os.symlink(os.path.join(pdir, kind, 'r%04d' % (runno + 1)), os.path.join(pdir, kind, dn))
    os.makedirs(os.path.join(pdir, 'raw', 'r%04d' % (runno + 1)))
    ctx.sample(runs['raw'].describe())
    junk = {}
    for kind in ('raw', 'proc'):
        d = os.path.join(pdir, kind, rname)
        junk[kind] = []
        good = [os.path.join(d, f.name) for f in runs[kind].files]
        for j in range(rng.choice([0, 0, 1, 2, 4])):
            jk = rng.choice(JUNK)
            if jk == 'badversion' and not all(f.sources for f in runs[kind].files):
                continue
            p = os.path.join(d, 'RAW-R%04d-DA%02d-S00000.h5' % (runno, 50 + j))
            make_junk(rng, jk, p, rng.choice(good))
            junk[kind].append((p, jk))
            ctx.count('junk_files')
        for nm in rng.sample(['readme.txt', 'RAW-R0001-DA01-S00000.h5.tmp', 'x.nxs', 'notes.h5x', 'map.json'], 2):
            with open(os.path.join(d, nm), 'w') as f:
                f.write('unrelated')
    jkinds = tuple(sorted(k for _, k in junk['raw']))

    def check(dc, err, kind, what, r=None, inc='*'):
        compare(rng, ctx, r or runs[kind], dc, what)
        for p, jk in junk[kind]:
            if fnmatch.fnmatch(os.path.basename(p), inc):
                ctx.check(os.path.basename(p) in err, 'not-reported', '%s: unusable file %s (%s) skipped silently' % (what, os.path.basename(p), jk))
        for f in runs[kind].files:
            ctx.check(f.name not in err, 'good-skipped', '%s: %r' % (what, err[:500]))
        for f in dc.files:
            f.close()

    rd = os.path.join(pdir, 'raw', rname)
    with mock.patch('karabo_data.read_machinery.DATA_ROOT_DIR', base):
        spell_p = [prop, str(prop), '%06d' % prop, pname, pdir]
        spell_r = [runno, str(runno), '%04d' % runno, rname]
        for n in range(4):
            sp, sr = rng.choice(spell_p), rng.choice(spell_r)
            kind = rng.choice(['raw', 'proc'])
            kw = {} if kind == 'raw' and rng.random() < .5 else {'data': kind}
            with quiet() as (o, e):
                dc = open_run(sp, sr, **kw) if rng.random() < .5 else open_run(proposal=sp, run=sr, **kw)
            ctx.count('spellings')
            ctx.seen('spelling', type(sp).__name__, str(sp)[:1], type(sr).__name__, str(sr)[:1], kind, jkinds)
            check(dc, o.getvalue() + e.getvalue(), kind, 'open_run(%r, %r, %r)' % (sp, sr, kw))
        # a run which does not exist must not be answered with another one
        for sp, sr in ((prop, runno + 7), (prop + 3, runno)):
            try:
                with quiet():
                    dc = open_run(sp, sr)
            except Exception:
                ctx.count('absent_runs')
            else:
                ctx.violation('absent-run', 'open_run(%r, %r) opened %r' % (sp, sr, [f.filename for f in dc.files]))
        # nor may data of one kind stand in for the other
        kind = rng.choice(['raw', 'proc'])
        there = os.path.join(pdir, kind, rname)
        os.rename(there, there + '-away')
        for sp, kw in ((rng.choice(spell_p), {'data': kind}), (prop, {'data': kind, 'include': '*'})):
            try:
                with quiet():
                    dc = open_run(sp, rng.choice(spell_r), **kw)
            except Exception:
                ctx.count('absent_kinds')
            else:
                ctx.violation('absent-kind', 'open_run(%r, ..., %r) opened %r where there is no %s data' % (sp, kw, [f.filename for f in dc.files], kind))
        os.rename(there + '-away', there)
    r = runs['raw']
    link = os.path.join(ctx.dir('ln'), rng.choice(['somewhere', 'r0001 [copy]', 'r[0-9]*', 'a?b', 'run.h5', '*', 'é', '~', '$HOME', 'p000001', '{x}']))
    os.symlink(rd, link)
    for p in (rd, rd + '/', link):
        with quiet() as (o, e):
            dc = RunDirectory(p)
        check(dc, o.getvalue() + e.getvalue(), 'raw', 'RunDirectory(%r)' % os.path.basename(p))
    plink = os.path.join(ctx.dir('lp'), rng.choice(['my proposal', 'p [old]', 'p*', 'p?', 'run', '[!p]']))
    os.symlink(pdir, plink)
    with quiet() as (o, e):
        dc = open_run(plink + rng.choice(['', '/']), rng.choice(spell_r), data='proc')
    check(dc, o.getvalue() + e.getvalue(), 'proc', 'open_run(%r)' % plink)
    # include patterns
    inc = rng.choice(['*DA*', '*-S00000*', '*DA01*', 'RAW*', '*S0000[12].h5', '*'])
    names = [f.name for f in r.files if fnmatch.fnmatch(f.name, inc)]
    try:
        with quiet() as (o, e):
            dc = RunDirectory(rng.choice([rd, link]), include=inc) if rng.random() < .5 else open_run(pdir, runno, include=inc)
    except Exception as x:
        ctx.check(not names, 'include-failed', 'include=%r: %r' % (inc, x), files=[f.name for f in r.files])
    else:
        if ctx.check(names, 'include-opened', 'include=%r opened %r' % (inc, [f.filename for f in dc.files])):
            check(dc, o.getvalue() + e.getvalue(), 'raw', 'include=%r' % inc, subrun(r, names), inc)
    # file by file and from_paths
    paths = [os.path.join(rd, f.name) for f in r.files]
    for n in range(2):
        rng.shuffle(paths)
        fs = [H5File(p) for p in paths]
        for p, dc in zip(paths, fs):
            if rng.random() < .5:
                compare(rng, ctx, subrun(r, [os.path.basename(p)]), dc, 'H5File')
        compare(rng, ctx, r, fs[0].union(*fs[1:]) if len(fs) > 1 else fs[0], 'union of H5Files')
    mixed = paths + [p for p, _ in junk['raw']]
    rng.shuffle(mixed)
    with quiet() as (o, e):
        dc = DataCollection.from_paths(mixed)
    check(dc, o.getvalue() + e.getvalue(), 'raw', 'from_paths')
    for p, jk in junk['raw']:
        try:
            H5File(p)
        except Exception:
            pass
        else:
            ctx.violation('junk-opened', 'H5File opens an unusable file (%s)' % jk)
    # nothing usable
    if rng.random() < .3:
        d = ctx.dir('bad')
        for j in range(rng.randint(1, 3)):
            make_junk(rng, rng.choice([k for k in JUNK if k != 'badversion']), os.path.join(d, 'f%d.h5' % j), paths[0])
        try:
            with quiet():
                dc = RunDirectory(d)
        except Exception:
            ctx.count('all_unusable')
        else:
            ctx.violation('nothing-usable', 'opened %r' % [f.filename for f in dc.files])
    ctx.seen('layout', tuple(sorted((f.version, f.index, f.pad) for f in r.files)), jkinds, inc)
