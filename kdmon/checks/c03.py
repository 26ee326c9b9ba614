"""C03: get_data_counts, get_series, get_dataframe against the ground truth."""
import numpy as np
from ..util import *

ID = 'C03'
RULE = ("random runs x train selections x fields: counts for every field, series for one-dimensional fields (one or "
        "many entries per train, raw and corrected pulse layout), data frames over random field selections; distinct "
        "by per-file pattern of selected trains and counts, dtype and kind of access")
ASSUME = ["fields with several entries per train have a pulseId dataset in their group",
          "the row order of a data frame and its dtype after adding missing values are pandas' choice"]
cases = std_cases({'quick': 640, 'thorough': 10000})
MINIMUM = {'counts': 2000, 'series': 1500, 'pulse_series': 100, 'frames': 200, 'missing_cells': 100}


def series_kind(r, source, key, trains):
    """'plain', 'pulse' or None if the field is out of scope"""
    s = r.sources[source]
    g, k = s.group_of(key), s.keys[key]
    files = [f for f in r.files if source in f.sources]
    vis = [f for f in files if set(f.trains) & set(trains)]
    multi = [any(s.counts[g].get(t, 0) > 1 for f in fs for t in f.trains) for fs in (files, vis)]
    if multi[0] != multi[1]:
        return None
    if not multi[0]:
        return 'plain' if k.shape == () else None
    if g not in s.pulse_groups or k.shape not in ((), (1,)):
        return None
    return 'pulse'


def eq(got, exp, dtype):
    got, exp = np.asarray(got), np.asarray(exp)
    if dtype in ('str', 'S8', '?') or not len(exp):
        return got.tolist() == exp.tolist()
    return model.same(got, exp)


def series_name(source, key):
    return source + '/' + (key[:-6] if key.endswith('.value') else key)


def run_case(case, ctx):
    rng = rng_for(ID, *case)
    r, d = make_run(rng, ctx, ctrl_holes=rng.random() < .2, empty_file=0.15,
                    forbid_multi_nonpulse=rng.random() < .6)
    dc = open_run(r, d, rng)
    ctx.sample(r.describe())
    for _ in range(rng.randint(1, 2)):
        trains = random_subset(rng, r.trains)
        if not trains:
            raise Skip
        sub = select_trains(rng, dc, trains)
        view = model.View(r, trains)
        for source, key in fields(r):
            if not source_visible(r, source, trains):
                continue
            exp = view.counts(source, key)
            ser = sub.get_data_counts(source, key)
            ctx.count('counts')
            got = dict(zip([int(x) for x in ser.index], [int(x) for x in ser.values]))
            ctx.check(got == exp and [int(x) for x in ser.index] == sorted(exp), 'counts',
                      'counts of %s %s trains %r: %r instead of %r' % (source, key, trains, got, exp),
                      run=r.describe())
            ctx.seen('n', shape_class(r, source, key, trains))
            kind = series_kind(r, source, key, trains)
            if kind is None:
                continue
            ev, et = view.array(source, key)
            if ev.ndim == 2:
                ev = ev[:, 0]
            ser = sub.get_series(source, key)
            ctx.count('series')
            ctx.seen('s', kind, shape_class(r, source, key, trains))
            what = 'series %s %s trains %r' % (source, key, trains)
            ctx.check(eq(ser.values, ev, r.sources[source].keys[key].dtype), 'series-values',
                      '%s: %r instead of %r' % (what, ser.values, ev), run=r.describe())
            ctx.check(ser.name == series_name(source, key), 'series-name', '%s: name %r' % (what, ser.name))
            if kind == 'plain':
                gi = [int(x) for x in ser.index]
                ei = et.tolist()
                ctx.check(ser.index.name == 'trainId', 'index-names', '%s: index is called %r' % (what, ser.index.name))
            else:
                g = r.sources[source].group_of(key)
                ep = view.array(source, g + '.pulseId')[0].reshape(-1)
                ei = list(zip(et.tolist(), ep.tolist()))
                gi = [tuple(int(y) for y in x) for x in ser.index] if ser.index.nlevels == 2 else list(ser.index)
                ctx.count('pulse_series')
                ctx.check(not len(ser) or list(ser.index.names) == ['trainId', 'pulseId'], 'index-names',
                          '%s: %r' % (what, ser.index.names))
            ctx.check(gi == ei, 'series-index', '%s: index %r instead of %r' % (what, gi, ei), run=r.describe())

        # data frames
        cols = [(s, k) for s, k in fields(r) if series_kind(r, s, k, trains) == 'plain'
                and source_visible(r, s, trains) and r.sources[s].keys[k].dtype not in ('S8',)]
        if not cols:
            continue
        pick = rng.sample(cols, rng.randint(1, len(cols)))
        ts = rng.random() < .4
        use = [c for c in pick if ts or not c[1].endswith('.timestamp')]
        if not use:
            continue
        sel = {}
        for s, k in pick:
            sel.setdefault(s, set()).add(k)
        kw = {'timestamps': True} if ts else {}
        if rng.random() < .5:
            df = sub.get_dataframe(fields=[(s, k) for s, k in pick] if not any(
                s2.kind == 'C' and k + '.value' in s2.keys for s, k in pick for s2 in [r.sources[s]]) else sel, **kw)
        else:
            df = sub.select(sel).get_dataframe(**kw)
        ctx.count('frames')
        names = {series_name(s, k): (s, k) for s, k in use}
        if not ctx.check(sorted(df.columns) == sorted(names), 'columns', 'data frame columns %r instead of %r' % (
                sorted(df.columns), sorted(names))):
            continue
        rows = [int(x) for x in df.index]
        exprows = set()
        for s, k in use:
            exprows |= set(view.array(s, k)[1].tolist())
        ctx.check(sorted(rows) == sorted(exprows), 'rows', 'data frame trains %r instead of %r' % (
            sorted(rows), sorted(exprows)), run=r.describe())
        ctx.seen('f', tuple(sorted((shape_class(r, s, k, trains)) for s, k in use)).__repr__())
        for n, (s, k) in names.items():
            ev, et = view.array(s, k)
            exp = dict(zip(et.tolist(), ev.tolist()))
            col = dict(zip(rows, df[n].tolist()))
            for t in rows:
                g = col[t]
                if t in exp:
                    e = exp[t]
                    ok = g == e or (e != e and g != g) or (isinstance(g, float) and isinstance(e, int) and g == float(e))
                    ctx.check(ok, 'frame-values', 'data frame %s train %d: %r instead of %r' % (n, t, g, e))
                else:
                    ctx.count('missing_cells')
                    ctx.check(g is None or g != g, 'frame-missing', 'data frame %s train %d: %r where nothing is stored' % (n, t, g))
