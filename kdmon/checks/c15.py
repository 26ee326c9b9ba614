"""C15: which modules and trains a detector object is made of, and what it refuses."""
import numpy as np
from ..util import *
from .. import det, gen

ID = 'C15'
RULE = ("random runs with zero, one or several detectors of the same or other types and look-alike sources x class, name, module "
        "numbers, min_modules and preceding selections; modules, trains, frame count and name compared, refusals checked; "
        "distinct by (detectors present, class asked, name given, modules, min_modules, outcome)")
ASSUME = ['detector modules are sources named like the ones of the facility (NAME/DET/nCH0:xtdf, or corrected ones)']
cases = std_cases({'quick': 700, 'thorough': 10000})
MINIMUM = {'built': 700, 'refused': 600, 'refused-none': 60, 'refused-several': 60, 'refused-frames': 60, 'refused-min': 60, 'trains_excluded': 200}

NAMES = {'AGIPD': ['SPB_DET_AGIPD1M-1', 'MID_DET_AGIPD1M-1', 'SPB_DET_AGIPD1M-10', 'TEST_SPB_DET_AGIPD1M-1', 'SPB_DET_AGIPD1M.1', 'SPB_DET_AGIPD1MX1'],
         'LPD': ['FXE_DET_LPD1M-1', 'FXE_DET_LPD1M-2', 'FXE_DET_LPD1M-11', 'OLD_FXE_DET_LPD1M-1'],
         'DSSC': ['SCS_DET_DSSC1M-1', 'SQS_DET_DSSC1M-1', 'SCS_DET_DSSC1M-12']}


def merge(rng, parts):
    r = gen.Run()
    n = 0
    for p in parts:
        for f in p.files:
            n += 1
            f.name = '%s-R0001-X%03d-S00000.h5' % (f.name.split('-')[0], n)
            r.files.append(f)
        r.sources.update(p.sources)
    return r


def lookalike(rng, name, trains):
    """A run with sources resembling modules of a detector"""
    p = gen.Run()
    for sn in rng.sample([name + '/CORR/3CH0:xtdf', name + '/DET/XCH0:xtdf', name + '/DET/4:xtdf', name + '/MDL/FPGA:out', 'X/' + name + ':out',
                          name + '/DET/5CH0', name + '/DET/CTRL', name + '/DET', name.replace('1M', '') + '/DET/2CH0:xtdf'], rng.randint(1, 4)):
        kind = 'I' if ':' in sn else 'C'
        if kind == 'I':
            s = gen.Source(sn, 'I', [gen.Key('image.data', 'u2', (1, 3, 2)), gen.Key('image.x', 'i4')])
        else:
            s = gen.Source(sn, 'C', [gen.Key('temp.value', 'f4')])
        gen.fill_source(rng, s, trains)
        p.sources[sn] = s
        p.files.append(gen.FileSpec('RAW-x', trains, [sn]))
    return p


def inconsistent(rng, r, mods):
    """Change one count of frames so that they differ; returns False if that is impossible"""
    cand = [(s, t) for s in mods.values() for t, c in r.sources[s].counts['image'].items() if c]
    if len(cand) < 2:
        return False
    s, t = rng.choice(cand)
    src = r.sources[s]
    n = src.counts['image'][t]
    new = n + 1 if n == 1 or rng.random() < .5 else n - 1
    src.counts['image'][t] = new
    for k in src.keys.values():
        if k.group == 'image':
            src.data[k.name][t] = np.resize(src.data[k.name][t], (new,) + k.shape)
    return True


def run_case(case, ctx):
    import karabo_data.components as kc
    from karabo_data import RunDirectory, SourceNameError
    rng = rng_for(ID, *case)
    parts = []
    dets = []
    for n in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        typ = rng.choice(sorted(NAMES))
        free = [x for x in NAMES[typ] if x not in [d[1] for d in dets]]
        nm = rng.choice(free[:2] + [rng.choice(free)])
        p = det.gen_det_run(rng, typ, name=nm, decoys=n == 0, max_mods=6, raw=rng.random() < .5, big_ids=False)
        parts.append(p)
        dets.append((typ, nm, p.F))
    trains = parts[0].det_trains if parts else gen.gen_trains(rng, 4)
    if rng.random() < .5 or not parts:
        parts.append(lookalike(rng, dets[0][1] if dets else rng.choice(NAMES['AGIPD']), trains))
    r = merge(rng, parts)
    bad = None
    if dets and rng.random() < .2:
        typ, nm, F = rng.choice(dets)
        if inconsistent(rng, r, det.modules_of(r, nm)):
            bad = nm
    d = ctx.dir('run')
    r.write(d)
    with quiet():
        dc = RunDirectory(d)
    ctx.sample(dict(dets=dets, **r.describe()))
    for n in range(5):
        data, within, sel_mods = dc, None, None
        if rng.random() < .25:
            within = random_subset(rng, r.trains)
            data = select_trains(rng, dc, within)
        typ = rng.choice(dets)[0] if dets and rng.random() < .8 else rng.choice(sorted(NAMES))
        mine = [x[1] for x in dets if x[0] == typ]
        kw = {}
        if mine and rng.random() < .5:
            kw['detector_name'] = rng.choice(mine)
        elif rng.random() < .05:
            kw['detector_name'] = rng.choice([x for x in NAMES[typ] if x not in mine] or ['NO_DET_%s1M-1' % typ])
        mods_all = {m: det.modules_of(r, m) for m in mine}
        if within is not None:
            mods_all = {m: {k: s for k, s in v.items() if source_visible(r, s, within)} for m, v in mods_all.items()}
        if rng.random() < .25 and any(mods_all.values()):
            # drop some modules by deselecting
            nm = rng.choice([m for m in mods_all if mods_all[m]])
            keep = random_subset(rng, sorted(mods_all[nm]))
            drop = [s for k, s in mods_all[nm].items() if k not in keep]
            if drop:
                data = data.deselect([(s, '*') for s in drop])
                mods_all[nm] = {k: mods_all[nm][k] for k in keep}
        present = [m for m in mine if mods_all[m]]
        want = kw.get('detector_name')
        name = want or (present[0] if len(present) == 1 else None)
        mods = dict(mods_all.get(name, {}))
        if rng.random() < .35:
            keep = rng.choice([sorted(rng.sample(range(16), rng.randint(1, 8))), sorted(random_subset(rng, sorted(mods)))])
            kw['modules'] = rng.choice([set, list, tuple])(keep) if rng.random() < .8 else range(min(keep or [0]), 16)
            if rng.random() < .1:
                kw['modules'] = type(kw['modules'])([]) if not isinstance(kw['modules'], range) else range(0)
            mods = {m: s for m, s in mods.items() if m in kw['modules']}
        minm = 1
        if rng.random() < .4:
            minm = rng.randint(1, len(mods) + 1)
            kw['min_modules'] = minm
        counts = {c for s in mods.values() for t, c in r.sources[s].counts['image'].items() if c and (within is None or t in within)}
        exp = det.expected_trains(r, mods, minm, within)
        if not want and len(present) > 1:
            outcome = 'several'
        elif not mods:
            outcome = 'none'
        elif len(counts) > 1:
            outcome = 'frames'
        elif not counts:
            outcome = 'nodata'
        elif not exp:
            outcome = 'min'
        else:
            outcome = 'ok'
        what = '%s(%r) of %r within %r' % (det.CLS[typ], kw, dets, within)
        ctx.seen(tuple(sorted(x[0] for x in dets)), typ, want is not None, len(mods), minm, outcome)
        try:
            obj = getattr(kc, det.CLS[typ])(data, **kw)
        except (ValueError, SourceNameError) as e:
            ctx.count('refused')
            ctx.count('refused-' + outcome)
            ctx.check(outcome != 'ok', 'wrongly-refused', '%s: %r' % (what, e), run=r.describe())
            continue
        ctx.count('built')
        if not ctx.check(outcome == 'ok', 'not-refused', '%s: accepted although %s; modules %r' % (what, outcome, obj.source_to_modno),
                         run=r.describe()):
            continue
        got = {m: s for s, m in obj.source_to_modno.items()}
        # modules no file of which has one of these trains can be left out
        need = {m: s for m, s in mods.items() if source_visible(r, s, exp)}
        ctx.check(set(need.items()) <= set(got.items()) <= set(mods.items()), 'modules', '%s: %r instead of %r' % (what, got, mods), run=r.describe())
        ctx.check(dict(obj.modno_to_source) == got, 'modno-to-source', what)
        ctx.check([int(t) for t in obj.train_ids] == exp, 'trains', '%s: %r instead of %r' % (what, [int(t) for t in obj.train_ids], exp), run=r.describe())
        ctx.check(obj.detector_name == name, 'name', '%s: %r' % (what, obj.detector_name))
        ctx.check(int(obj.frames_per_train) == counts.pop(), 'frames', '%s: %r frames' % (what, obj.frames_per_train))
        ctx.check(set(obj.data.all_sources) <= set(mods.values()), 'data-sources', '%s: %r' % (what, obj.data.all_sources))
        ctx.count('trains_excluded', len(r.trains) - len(exp))
        ctx.check(('%d modules' % len(got)) in repr(obj) and repr(name) in repr(obj), 'repr', repr(obj))
        a = obj.get_array('image.cellId')
        ctx.check(set(int(x) for x in a.coords['module'].values) == {m for m in got}, 'array-modules', what)
        exp_c = det.cells(_F(r, got), got, 'image.cellId', exp, _All())
        ctx.check(int(np.sum(~np.isnan(a.values.astype('f8')))) == len(exp_c), 'array-cells', '%s: %d entries instead of %d' % (
            what, int(np.sum(~np.isnan(a.values.astype('f8')))), len(exp_c)), run=r.describe())


class _All:
    def positions(self, p):
        return range(len(p))


class _F:
    """Run seen through one detector's own pulse IDs"""

    def __init__(self, r, mods):
        self.sources = r.sources
        self.pids = {}
        for s in mods.values():
            for t, a in r.sources[s].data['image.pulseId'].items():
                if len(a):
                    self.pids[t] = a.reshape(len(a))
