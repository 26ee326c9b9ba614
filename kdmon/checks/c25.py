"""C25: info(), detector_info(), train_info() and lsxfel against the truth."""
import datetime, os, re, warnings
import numpy as np
from ..util import *
from .. import det, gen, model

ID = 'C25'
RULE = ("random runs, with and without detector modules (constant, varying and zero frame counts, empty files, several "
        "sequence files, unusual file names) x views (whole, unions, selected sources, trains); the printed text of "
        "info(), train_info() and lsxfel on files, runs, proposal directories and several paths is parsed and every "
        "number and name compared with the ground truth; distinct by what was summarised")
ASSUME = ["detector sources named */DET/nCH* have image data",
          "the number of trains lsxfel shows for each of several runs is the one of some group of sequence files "
          "(documented shortcut), so it is only compared exactly where all groups have the same trains"]
cases = std_cases({'quick': 960, 'thorough': 12000})
MINIMUM = {'info': 440, 'detector_info': 180, 'train_info': 350, 'describe_file': 150, 'describe_run': 100,
           'several': 100, 'several_proposals': 40, 'proposal': 100, 'refused': 100, 'no_trains': 15, 'run_trains_exact': 70}
DESC = {'RAW': 'Raw', 'CORR': 'Corrected'}


def isdet(s):
    return re.match(r'.+/DET/\d+CH', s) is not None


def vary(rng, r):
    """Give the trains of the detector modules different numbers of frames"""
    for s in r.sources.values():
        if not isdet(s.name):
            continue
        for t, n in list(s.counts['image'].items()):
            if n and rng.random() < .4:
                n = rng.randint(1, n)
                s.counts['image'][t] = n
                for k in s.keys:
                    if k.startswith('image.'):
                        s.data[k][t] = s.data[k][t][:n]


def fpt_allowed(r, source, trains):
    """One file's maximum, of those with any frames; 0 only if the selected trains have none"""
    out = set()
    if not any(det.has(r, source, t) for t in trains):
        out.add(0)
    for f in r.files:
        if source in f.sources:
            m = max([r.sources[source].counts['image'][t] for t in f.trains] or [0])
            if m:
                out.add(m)
    return out


def dims_of(r, source):
    return tuple(r.sources[source].keys['image.data'].shape[-2:])


def section(lines, i):
    out = set()
    n = 0
    while i < len(lines) and re.match(r'\s*-\s+\S', lines[i]):
        out.add(re.match(r'\s*-\s+(.*?)\s*$', lines[i]).group(1))
        n += 1
        i += 1
    return out, n


def check_info(ctx, text, r, trains, ctrl, inst, what):
    """trains, ctrl, inst: what has to be stated"""
    ctx.count('info')
    lines = text.splitlines()

    def val(label):
        for l in lines:
            if l.startswith(label):
                return l[len(label):].strip()

    dets = {s for s in inst if isdet(s)}
    bad = []

    def want(name, got, exp):
        ctx.counters['checks'] += 1
        if got != exp:
            bad.append('%s is %r, should be %r' % (name, got, exp))

    want('number of trains', val('# of trains:'), str(len(trains)))
    if trains:
        want('first train', val('First train ID:'), str(trains[0]))
        want('last train', val('Last train ID:'), str(trains[-1]))
        want('duration', val('Duration:'), str(datetime.timedelta(seconds=(trains[-1] - trains[0]) / 10)))
    seen = set()
    for i, l in enumerate(lines):
        m = re.match(r'(\d+) detector modules \((.*)\)$', l)
        if m:
            seen.add('det')
            want('number of detector modules', int(m.group(1)), len(dets))
            want('detector name', set(m.group(2).split(',')) - {''}, {s.split('/DET/')[0] for s in dets})
        m = re.match(r'\s*e\.g\. module (\S+) (\d+) : (\d+) x (\d+) pixels', l)
        if m:
            seen.add('eg')
            src = lines[i + 1].strip()
            want('example source', src in dets, True)
            if src in dets:
                want('example module', (m.group(1), int(m.group(2))),
                     (src.split('/DET/')[0], int(re.search(r'/DET/(\d+)CH', src).group(1))))
                want('pixels', (int(m.group(3)), int(m.group(4))), dims_of(r, src))
                m2 = re.match(r'\s*(\d+) frames per train, up to (\d+) frames total', lines[i + 2])
                want('frames line', m2 is not None, True)
                if m2:
                    fpt = int(m2.group(1))
                    want('frames per train %d in %r' % (fpt, fpt_allowed(r, src, trains)), fpt in fpt_allowed(r, src, trains), True)
                    want('total frames', int(m2.group(2)), fpt * len(trains))
        m = re.match(r'(\d+) instrument sources', l)
        if m:
            seen.add('inst')
            names, n = section(lines, i + 1)
            want('number of instrument sources', int(m.group(1)), len(inst - dets))
            want('instrument sources', (names, n), (inst - dets, len(inst - dets)))
        m = re.match(r'(\d+) control sources', l)
        if m:
            seen.add('ctrl')
            names, n = section(lines, i + 1)
            want('number of control sources', int(m.group(1)), len(ctrl))
            want('control sources', (names, n), (ctrl, len(ctrl)))
    want('sections', seen, {'det', 'inst', 'ctrl'} | ({'eg'} if dets else set()))
    if bad:
        ctx.violation('info', '%s: %s' % (what, '; '.join(bad)), text=text, run=r.describe())


def desc_for(name):
    p = name[:-3].split('-')
    if len(p) != 4:
        return None, False
    m = re.match(r'([A-Z]+)(\d+)', p[2])
    if m and m.group(1) in ('AGIPD', 'DSSC', 'FastCCD', 'LPD'):
        return '%s detector data from %s module %s' % (DESC.get(p[0], '?'), m.group(1), m.group(2)), True
    if m and m.group(1) == 'DA':
        return 'Aggregated data', False
    return None, False


def file_truth(r, f):
    inst = {s for s in f.sources if s in r.sources and r.sources[s].kind == 'I'}
    ctrl = {s for s in f.sources if s in r.sources and r.sources[s].kind == 'C'}
    return ctrl, inst


def file_fpt(r, f, src):
    return max([r.sources[src].counts['image'][t] for t in f.trains] or [0])


def check_describe_file(ctx, text, r, f, name, what):
    ctx.count('describe_file')
    bad = []

    def want(n, got, exp):
        ctx.counters['checks'] += 1
        if got != exp:
            bad.append('%s is %r, should be %r' % (n, got, exp))
    lines = text.splitlines()
    d, named_det = desc_for(name)
    want('name', lines[0].split(' : ')[0].strip(), name)
    if d:
        want('description', lines[0].split(' : ')[1].strip(), d)
    m = re.search(r'^(\d+) trains$', text, re.M)
    want('trains', m and int(m.group(1)), len(f.trains))
    ctrl, inst = file_truth(r, f)
    dets = {s for s in inst if isdet(s)}
    if named_det and dets:
        m = re.search(r'^(\d+) × (\d+) pixels$', text, re.M)
        want('pixels', m and (int(m.group(1)), int(m.group(2))), dims_of(r, min(dets)))
        m = re.search(r'^(\d+) frames per train, (\d+) total', text, re.M)
        fpt = file_fpt(r, f, min(dets))
        want('frames', m and (int(m.group(1)), int(m.group(2))), (fpt, fpt * len(f.trains)))
    else:
        for i, l in enumerate(lines):
            for word, exp in (('instrument', inst), ('control', ctrl)):
                m = re.match(r'(\d+) %s sources' % word, l)
                if m:
                    want('number of %s sources' % word, int(m.group(1)), len(exp))
                    want('%s sources' % word, section(lines, i + 1), (exp, len(exp)))
        for word in ('instrument', 'control'):
            want('%s section' % word, re.search(r'\d+ %s sources' % word, text) is not None, True)
    if bad:
        ctx.violation('describe-file', '%s: %s' % (what, '; '.join(bad)), text=text, run=r.describe())


def check_summary_file(ctx, text, r, f, name, what):
    bad = []
    ctrl, inst = file_truth(r, f)
    dets = {s for s in inst if isdet(s)}
    d, named_det = desc_for(name)
    m = re.search(re.escape(name) + r'[ \t]*: ?(.*)\n\s+(\d+) trains, (?:(\d+) sources|(\d+) frames/train, (\d+) total frames)', text)
    ctx.counters['checks'] += 1
    if not m:
        bad.append('no summary of %s' % name)
    else:
        if d and m.group(1).strip() != d:
            bad.append('description %r should be %r' % (m.group(1), d))
        if int(m.group(2)) != len(f.trains):
            bad.append('%s trains, should be %d' % (m.group(2), len(f.trains)))
        if named_det and dets:
            fpt = file_fpt(r, f, min(dets))
            if (m.group(4), m.group(5)) != (str(fpt), str(fpt * len(f.trains))):
                bad.append('frames %r, should be %r' % (m.groups()[3:], (fpt, fpt * len(f.trains))))
        elif m.group(3) != str(len(ctrl | inst)):
            bad.append('%s sources, should be %d' % (m.group(3), len(ctrl | inst)))
    if bad:
        ctx.violation('summary-file', '%s: %s' % (what, '; '.join(bad)), text=text, run=r.describe())


def groups_of(files):
    g = {}
    for name, f in files:
        m = re.match(r'(.+)-S\d+\.h5$', name)
        if m:
            g.setdefault(m.group(1), []).append((name, f))
    return g


def check_summary_run(ctx, text, r, files, rname, what):
    """files: [(name, FileSpec)]"""
    ctx.counters['checks'] += 1
    g = groups_of(files)
    if not g:
        if not re.search(r'^\s*%s : No data files' % re.escape(rname), text, re.M):
            ctx.violation('summary-run', '%s: no line for %s, which has no data files' % (what, rname), text=text)
        return
    m = re.search(r'^\s*%s : Run of\s+(\d+) trains, with\s+(\d+) detector files and\s+(\d+) others' % re.escape(rname), text, re.M)
    bad = []
    if not m:
        bad.append('no line for %s' % rname)
    else:
        tr = [len(set().union(*[f.trains for _, f in v])) for v in g.values()]
        sets = {tuple(sorted(set().union(*[f.trains for _, f in v]))) for v in g.values()}
        if int(m.group(1)) not in (tr if not any(tr) else [x for x in tr if x]):
            bad.append('%s trains, files have %r' % (m.group(1), tr))
        if len(sets) == 1:
            ctx.count('run_trains_exact')
        nd = sum(desc_for(n)[1] for v in g.values() for n, _ in v)
        nf = sum(len(v) for v in g.values())
        if (int(m.group(2)), int(m.group(3))) != (nd, nf - nd):
            bad.append('%s detector files & %s others, should be %d & %d' % (m.group(2), m.group(3), nd, nf - nd))
    if bad:
        ctx.violation('summary-run', '%s: %s' % (what, '; '.join(bad)), text=text, run=r.describe())


def a_run(rng, ctx, d=None):
    isdetrun = rng.random() < .55
    if isdetrun:
        r = det.gen_det_run(rng, max_mods=4)
        if rng.random() < .4:
            vary(rng, r)
        if rng.random() < .1:     # no frames at all in some module
            s = r.sources[rng.choice(sorted(x for x in r.sources if isdet(x)))]
            for t in s.counts['image']:
                s.counts['image'][t] = 0
            for k in s.keys:
                if k.startswith('image.'):
                    for t in s.data[k]:
                        s.data[k][t] = s.data[k][t][:0]
        if rng.random() < .3:     # other instrument sources with similar names
            s = gen.inst_source(rng, rng.choice([r.name + '/DET/HIST:output', 'MID_EXP/DET/CH0:xtdf']), False)
            if s.keys:
                r.sources[s.name] = s
                gen.fill_source(rng, s, r.trains)
                r.files.append(gen.FileSpec('RAW-R0001-DA77-S00000.h5', r.trains, [s.name]))
    else:
        r = gen.gen_run(rng)
        if not r.sources:
            raise Skip
    d = d or ctx.dir('run')
    r.write(d)
    return r, d


def run_lsxfel(paths):
    from karabo_data import lsxfel
    with quiet() as (out, err):
        code = lsxfel.main(paths)
    return code or 0, out.getvalue()


def run_case(case, ctx):
    rng = rng_for(ID, *case)
    from karabo_data import H5File, RunDirectory
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        mode = ('info', 'info', 'info', 'file', 'rundir', 'several', 'proposal', 'refused')[case[1] % 8]
        globals()['do_' + mode](rng, ctx)


def do_info(rng, ctx):
    r, d = a_run(rng, ctx)
    ctx.sample(r.describe())
    dc = open_run(r, d, rng)
    view = model.View(r)
    how = rng.choice(['all', 'sel', 'desel', 'trains', 'both', 'notrains'])
    if how in ('sel', 'both'):
        srcs = random_subset(rng, sorted(r.sources))
        dc = dc.select([(s, '*') for s in srcs])
        view.sel = {s: view.sel[s] for s in srcs}
    elif how == 'desel' and len(r.sources) > 1:
        s = rng.choice(sorted(r.sources))
        dc = dc.deselect([(s, '*')])
        del view.sel[s]
    if how in ('trains', 'both') and view.trains:
        tr = random_subset(rng, [int(t) for t in dc.train_ids] or view.trains)
        if set(tr) - {int(t) for t in dc.train_ids}:
            return
        dc = select_trains(rng, dc, tr)
        view = model.View(r, tr, view.sel)
    elif how == 'notrains':
        from karabo_data import by_index
        dc = dc.select_trains(by_index[0:0])
        view = model.View(r, [], view.sel)
    trains = list(view.trains)
    got = [int(t) for t in dc.train_ids]
    if got != trains:       # dropping sources may drop trains; that is the subject of other properties
        trains = got
    if not trains:
        ctx.count('no_trains')
    srcs = set(view.sel)
    if how not in ('all', 'sel', 'desel'):
        # a source without any file in the trains may be dropped (subject of other properties)
        srcs = {s for s in srcs if source_visible(r, s, trains) or s in dc.all_sources}
    ctrl = {s for s in srcs if r.sources[s].kind == 'C'}
    inst = srcs - ctrl
    what = 'info() of %s, sources %r, %d trains' % (how, sorted(srcs), len(trains))
    with quiet() as (out, err):
        dc.info()
    ctx.seen('info', how, len(trains), len(ctrl), len(inst), sum(map(isdet, inst)))
    check_info(ctx, out.getvalue(), r, trains, ctrl, inst, what)
    for s in sorted(inst):
        if not isdet(s):
            continue
        ctx.count('detector_info')
        i = dc.detector_info(s)
        ok = tuple(i['dims']) == dims_of(r, s)
        ctx.check(ok, 'detector-dims', '%s: dims of %s %r should be %r' % (what, s, i['dims'], dims_of(r, s)))
        f = i['frames_per_train']
        allowed = fpt_allowed(r, s, trains)
        ctx.check(f in allowed, 'detector-frames', '%s: frames per train of %s %r, files have %r' % (what, s, f, allowed))
        ctx.check(i['total_frames'] == f * len(trains), 'detector-total', '%s: total frames of %s %r, %d trains of %r' % (
            what, s, i['total_frames'], len(trains), f))
    for t in trains[:4]:
        ctx.count('train_info')
        with quiet() as (out, err):
            dc.train_info(rng.choice([t, np.uint64(t)]))
        text = out.getvalue()
        there = {s for s in srcs if any(s in f.sources and t in f.trains for f in r.files)}
        m = re.match(r'Train \[(\d+)\] information\s*\n', text)
        ctx.check(m and int(m.group(1)) == t, 'train-info-id', '%s: train %d shown as %r' % (what, t, text[:60]))
        parts = re.split(r'^\s*(Instruments|Controls)\s*$', text, flags=re.M)
        gi = set(re.findall(r'^\s*-\s+(\S.*?)\s*$', parts[2] if len(parts) > 2 else '', re.M))
        gc = set(re.findall(r'^\s*-\s+(\S.*?)\s*$', parts[4] if len(parts) > 4 else '', re.M))
        ctx.check((gi, gc) == (there & inst, there & ctrl), 'train-info', '%s: train_info(%d) lists %r, %r; should be %r, %r' % (
            what, t, sorted(gi), sorted(gc), sorted(there & inst), sorted(there & ctrl)), run=r.describe())
    others = {(trains[-1] if trains else 5) + 1, 0} | set(r.trains) | {t + 1 for t in trains}
    for bad in sorted(others - set(trains))[:6]:
        try:
            with quiet():
                dc.train_info(bad)
            ctx.violation('train-info-unknown', '%s: train_info(%d) accepted, but there is no such train' % (what, bad))
        except ValueError:
            ctx.count('checks')


def rename(rng, r, d):
    """[(name, FileSpec)], some renamed to non-standard names"""
    out = []
    for f in r.files:
        name = f.name
        if rng.random() < .25:
            name = rng.choice(['sel%d.h5', 'my-data-%d.h5', 'RAW-R0001-XX%02d.h5', 'RAW-R0001-XGM%02d-S00000.h5',
                               'a-b-c-d-%d.h5', 'RAW-R0001-DA77-SELECTED%d.h5', 'RAW-R0001-DA77-S00000-part%d.h5',
                               'RAW-R0001-DA77-Spare-S%05d.h5']) % len(out)
            os.rename(os.path.join(d, f.name), os.path.join(d, name))
        out.append((name, f))
    return out


def do_file(rng, ctx):
    from karabo_data import H5File
    r, d = a_run(rng, ctx)
    files = rename(rng, r, d)
    for name, f in rng.sample(files, min(3, len(files))):
        path = os.path.join(d, name)
        code, text = run_lsxfel([path])
        ctx.check(code == 0, 'exit-code', 'lsxfel %s: exit code %r' % (name, code))
        ctx.seen('file', bool(f.trains), desc_for(name), len(f.sources))
        check_describe_file(ctx, text, r, f, name, 'lsxfel %s' % name)


def do_rundir(rng, ctx):
    parent = ctx.dir('p')
    d = os.path.join(parent, 'r0042')
    os.mkdir(d)
    r, d = a_run(rng, ctx, d)
    if rng.random() < .3:
        for n in rng.sample(['notes.txt', '.cache', '0readme', 'A.log', 'B', 'r0001', 'zz'], 2):
            with open(os.path.join(d, n), 'w') as f:
                f.write('x')
    arg = d + rng.choice(['', '', '/', '//', '/.'])
    old = os.getcwd()
    try:
        if rng.random() < .3:
            os.chdir(d)
            args = rng.choice([[], ['.'], ['../r0042'], ['./']])
        else:
            args = [arg]
        code, text = run_lsxfel(args)
    finally:
        os.chdir(old)
    what = 'lsxfel %r on a run directory' % args
    ctx.count('describe_run')
    ctx.check(code == 0, 'exit-code', '%s: exit code %r' % (what, code))
    ctx.check(text.startswith('r0042'), 'run-name', '%s: run is called %r' % (what, text[:30]))
    ctrl = {s for s in r.sources if r.sources[s].kind == 'C'}
    ctx.seen('rundir', len(r.trains), len(r.sources), args == [])
    check_info(ctx, text, r, r.trains, ctrl, set(r.sources) - ctrl, what)


def do_several(rng, ctx):
    args, todo, props, refuse = [], [], [], False
    for i in range(rng.randint(2, 3)):
        kind = rng.choice(['file', 'run', 'run', 'proposal', 'junk', 'missing', 'other'])
        parent = ctx.dir('p')
        if kind == 'proposal':
            top = os.path.join(parent, 'p%06d' % (2012 + i))
            props.append((os.path.basename(top), proposal(rng, ctx, top, 200 + 20 * i)))
            args.append(top + rng.choice(['', '/', '//']))
            continue
        if kind in ('file', 'run'):
            d = os.path.join(parent, 'r%04d' % (100 + i))
            os.mkdir(d)
            r, d = a_run(rng, ctx, d)
            if kind == 'run':
                files = [(f.name, f) for f in r.files]
                args.append(d + rng.choice(['', '/']))
                todo.append(('run', r, files, 'r%04d' % (100 + i)))
            else:
                files = rename(rng, r, d)
                name, f = rng.choice(files)
                # names have to differ to tell the summaries apart
                os.rename(os.path.join(d, name), os.path.join(d, name[:-3].replace('R0001', 'R000%d' % i) + '.h5'))
                name = name[:-3].replace('R0001', 'R000%d' % i) + '.h5'
                if any(x[0] == 'file' and x[3] == name for x in todo):
                    args.append(os.path.join(parent, 'nothere.h5'))
                    refuse = True
                    continue
                args.append(os.path.join(d, name))
                todo.append(('file', r, f, name))
        elif kind == 'junk':
            p = os.path.join(parent, 'junk.txt')
            open(p, 'w').write('hello')
            args.append(p)
            refuse = True
        elif kind == 'missing':
            args.append(os.path.join(parent, 'nothere.h5'))
            refuse = True
        else:
            args.append(parent)
            refuse = True
    code, text = run_lsxfel(args)
    ctx.count('several')
    what = 'lsxfel %r' % [os.path.basename(a) for a in args]
    ctx.check(code == (2 if refuse else 0), 'exit-code', '%s: exit code %r' % (what, code))
    ctx.seen('several', tuple(x[0] for x in todo), len(props), refuse)
    if props:
        ctx.count('several_proposals')
        ctx.check(re.findall(r'^(p00\d*) : P', text, re.M) == [n for n, _ in props], 'listed', '%s: proposals %r are listed as %r' % (
            what, [n for n, _ in props], re.findall(r'^(p00\d*) : P', text, re.M)))
        runs = [x[2] for _, rs in props for x in rs]
        listed = re.findall(r'^\s+(r02\d+) :', text, re.M)
        ctx.check(listed == runs, 'listed', '%s: runs %r are listed as %r' % (what, runs, listed))
        for _, rs in props:
            for r, files, name in rs:
                check_summary_run(ctx, text, r or gen.Run(), files, name, what)
    for x in todo:
        if x[0] == 'run':
            check_summary_run(ctx, text, x[1], x[2], x[3], what)
        else:
            check_summary_file(ctx, text, x[1], x[2], x[3], what)


def proposal(rng, ctx, top, first=0):
    """Make a proposal folder: [(Run or None, files, name)]"""
    raw = rng.random() < .5
    base = os.path.join(top, 'raw') if raw else top
    os.makedirs(base)
    todo = []
    for n in sorted(rng.sample(range(1, 20 if first else 30), rng.randint(1, 3))):
        name = 'r%04d' % (first + n)
        d = os.path.join(base, name)
        os.mkdir(d)
        if rng.random() < .2:
            todo.append((None, [], name))
            continue
        r, d = a_run(rng, ctx, d)
        files = [(f.name, f) for f in r.files]
        if rng.random() < .15 and len(files) > 1:
            # one unreadable file, in a sequence of its own
            p = os.path.join(d, 'RAW-R0001-AAA01-S00000.h5')
            open(p, 'wb').write(b'not HDF5' * 50)
            files.append((os.path.basename(p), gen.FileSpec(os.path.basename(p), [], [])))
        todo.append((r, files, name))
    if rng.random() < .3:
        open(os.path.join(base, 'readme.md'), 'w').write('x')
        open(os.path.join(base, 'r12.log'), 'w').write('x')
    return todo


def do_proposal(rng, ctx):
    top = os.path.join(ctx.dir('p'), 'p002012')
    todo = proposal(rng, ctx, top)
    raw = os.path.isdir(os.path.join(top, 'raw'))
    code, text = run_lsxfel([top + rng.choice(['', '/'])])
    ctx.count('proposal')
    what = 'lsxfel on a proposal directory%s' % (' with raw/' if raw else '')
    ctx.check(code == 0, 'exit-code', '%s: exit code %r' % (what, code))
    ctx.check(text.startswith('p002012'), 'run-name', '%s: called %r' % (what, text[:30]))
    listed = re.findall(r'^\s+(r\d+) :', text, re.M)
    ctx.check(listed == [x[2] for x in todo], 'listed', '%s: runs %r are listed as %r' % (what, [x[2] for x in todo], listed))
    ctx.seen('proposal', raw, tuple(bool(x[1]) for x in todo))
    for r, files, name in todo:
        check_summary_run(ctx, text, r or gen.Run(), files, name, what)


def do_refused(rng, ctx):
    parent = ctx.dir('p')
    kind = rng.choice(['junk', 'missing', 'other', 'dirname'])
    ctx.count('refused')
    p = os.path.join(parent, 'junk.txt')
    if kind == 'junk':
        open(p, 'w').write('hello')
    elif kind == 'other':
        p = os.path.join(parent, 'folder')
        os.mkdir(p)
        if rng.random() < .5:
            open(os.path.join(p, 'x.txt'), 'w').write('hello')
    elif kind == 'dirname':
        p = os.path.join(parent, 'nothere', 'r0001')
    code, text = run_lsxfel([p])
    ctx.seen('refused', kind)
    if kind == 'other':
        ctx.check('nrecognised' in text, 'refused', 'lsxfel on a directory without data printed %r' % text)
    else:
        ctx.check(code == 2, 'exit-code', 'lsxfel on %s: exit code %r, text %r' % (kind, code, text))
