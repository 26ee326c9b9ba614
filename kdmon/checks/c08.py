"""C08: write() then read back through every access method."""
import hashlib, os, shutil
import numpy as np
from ..util import *
from .c02 import random_selection, compare_train
from .c03 import series_kind, eq

ID = 'C08'
RULE = ("random runs x source/key/train selections written to a new, existing or previously written path, copied away at "
        "once and reopened; every field compared by array, counts, series, and every train by iteration and lookup; "
        "distinct by the selected pattern of trains and counts per field")
ASSUME = ["the written file is compared after copying its bytes right after the call returned"]
cases = std_cases({'quick': 500, 'thorough': 8000})
MINIMUM = {'files': 250, 'fields': 1000, 'partial_control': 60, 'no_data_fields': 50, 'validated': 250, 'long_fields': 2}


def metadata(ctx, path, view, r, what):
    """The tables of the file name exactly what is in it, as those of original files do"""
    import h5py
    with h5py.File(path, 'r') as f:
        m = f['METADATA/dataSources'] if 'METADATA/dataSources' in f else f['METADATA']
        ids, root, dev = ([x.decode() for x in m[k][:]] for k in ('dataSourceId', 'root', 'deviceId'))
        inside = set()
        for s in f.get('CONTROL', {}):
            f['CONTROL'][s].visititems(lambda p, o: inside.add('CONTROL/' + s + '/' + p) if isinstance(o, h5py.Dataset) else None)
        for s in f.get('INSTRUMENT', {}):
            f['INSTRUMENT'][s].visititems(lambda p, o: inside.add('INSTRUMENT/' + s + '/' + p) if isinstance(o, h5py.Dataset) else None)
        ctx.count('tables')
        ctx.check(len(set(ids)) == len(ids) and ids == [a + '/' + b for a, b in zip(root, dev)] and len(root) == len(dev) == len(ids) and
                  set(root) <= {'CONTROL', 'INSTRUMENT'}, 'tables', '%s: sources %r, roots %r, devices %r' % (what, ids, root, dev))
        lost = [p for p in inside if not any(p.startswith(i + '/') for i in ids)]
        ctx.check(not lost, 'tables', '%s: %r are in none of the sources listed, %r' % (what, sorted(lost), ids))
        bare = [i for i in ids if not any(p.startswith(i + '/') for p in inside)]
        ctx.check(not bare, 'tables', '%s: %r are listed, but nothing of them is stored' % (what, bare))


def build(rng, ctx, **kw):
    r, d = make_run(rng, ctx, **kw)
    dc = open_run(r, d, rng)
    return r, d, dc


def choose(rng, r, dc):
    view = model.View(r)
    if rng.random() < .7:
        arg, sel = random_selection(rng, view)
        dc = dc.select(arg)
        view = model.View(r, sel=sel)
    trains = random_subset(rng, r.trains)
    dc = select_trains(rng, dc, trains)
    sel = {s: k for s, k in view.sel.items() if source_visible(r, s, trains)}
    return dc, model.View(r, trains, sel)


def read_back(rng, r, view, out, ctx, what, virtual):
    """Compare collection 'out' with the model view"""
    got_tids = [int(t) for t in out.train_ids]
    ctx.check(got_tids == view.trains, 'trains', '%s: trains %r instead of %r' % (what, got_tids, view.trains), run=r.describe())
    got = {s: set(out.keys_for_source(s)) for s in out.all_sources}
    if virtual:
        need = {}
        for s, ks in view.sel.items():
            for k in ks:
                if len(view.array(s, k)[0]):
                    need.setdefault(s, set()).add(k)
        ok = all(s in got and need[s] <= got[s] for s in need) and all(s in view.sel and got[s] <= view.sel[s] for s in got)
    else:
        need = view.sel
        ok = got == need
    if not ctx.check(ok, 'sources-keys', '%s: has %r instead of %r' % (what, got, need), run=r.describe()):
        return
    ctx.check(all((r.sources[s].kind == 'C') == (s in out.control_sources) for s in got), 'kinds', what)
    if got_tids != view.trains:
        return
    v2 = model.View(r, view.trains, got)
    for s in sorted(got):
        for k in sorted(got[s]):
            exp, tids = view.array(s, k)
            ctx.count('fields')
            if len(exp) > 65535:
                ctx.count('long_fields')
            if not len(exp):
                ctx.count('no_data_fields')
            if r.sources[s].kind == 'C' and len(exp) < len(view.trains):
                ctx.count('partial_control')
            ctx.seen(shape_class(r, s, k, view.trains), len(view.trains))
            a = out.get_array(s, k)
            ctx.check(model.same(a.values, exp), 'array', '%s %s %s: %s' % (what, s, k, '' if model.same(a.values, exp) else
                                                                           model.diff(a.values, exp)), run=r.describe())
            ctx.check(not len(tids) or a.coords['trainId'].values.tolist() == tids.tolist(), 'array-labels', '%s %s %s' % (what, s, k), run=r.describe())
            c = {int(t): int(x) for t, x in out.get_data_counts(s, k).items()}
            e = view.counts(s, k)
            ctx.check({t: n for t, n in c.items() if n} == {t: n for t, n in e.items() if n} and set(c) <= set(view.trains),
                      'counts', '%s %s %s: %r instead of %r' % (what, s, k, c, e), run=r.describe())
            kind = series_kind(r, s, k, view.trains)
            # only the trains written decide how the new file is indexed
            multi = max([n for n in e.values()] or [0]) > 1
            if kind and multi == (kind == 'pulse') and (
                    kind == 'plain' or r.sources[s].group_of(k) + '.pulseId' in got[s]):
                ser = out.get_series(s, k)
                ev = exp[:, 0] if exp.ndim == 2 else exp
                ctx.check(eq(ser.values, ev, r.sources[s].keys[k].dtype), 'series', '%s %s %s: %r instead of %r' % (what, s, k, ser.values, ev), run=r.describe())
                gi = [int(x[0]) if kind == 'pulse' else int(x) for x in ser.index]
                ctx.check(gi == tids.tolist(), 'series-index', '%s %s %s: %r instead of %r' % (what, s, k, gi, tids), run=r.describe())
                ctx.count('series')
    seen = []
    for tid, data in out.trains():
        seen.append(tid)
        if tid in view.trains:
            compare_train(ctx, v2, tid, data, what + ' trains()')
    ctx.check(seen == view.trains, 'iteration', '%s: iterates %r' % (what, seen))
    if got:
        full = [t for t, _ in out.trains(require_all=True)]
        ex = [t for t in view.trains if v2.complete(t)]
        ctx.check(full == ex, 'complete-trains', '%s: require_all gives %r instead of %r' % (what, full, ex), run=r.describe())
    for t in random_subset(rng, view.trains)[:3]:
        tid, data = out.train_from_id(t)
        compare_train(ctx, v2, t, data, what + ' train_from_id')


def open_fds(path):
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd) == path:
                n += 1
        except OSError:
            pass
    return n


def run_case(case, ctx):
    from karabo_data import H5File
    from karabo_data.validation import FileValidator
    rng = rng_for(ID, *case)
    r, d, dc = build(rng, ctx, max_trains=8, ctrl_holes=rng.random() < .15, big=rng.random() < .12)
    ctx.sample(r.describe())
    for n in range(rng.randint(1, 2)):
        sub, view = choose(rng, r, dc)
        if not view.sel:
            continue
        out = os.path.join(ctx.tmp, 'out.h5')
        if rng.random() < .2:
            with open(out, 'wb') as f:
                f.write(os.urandom(5000))
        sub.write(out)
        ctx.count('files')
        copy = os.path.join(ctx.tmp, 'copy%d.h5' % n)
        ctx.check(open_fds(out) == 0, 'still-open', 'file still open for writing after write() returned')
        shutil.copyfile(out, copy)
        what = 'write of %r trains %r' % ({s: sorted(k) for s, k in view.sel.items()}, view.trains)
        try:
            res = H5File(copy)
        except Exception as e:
            ctx.violation('unreadable', '%s: %r' % (what, e), run=r.describe())
            continue
        read_back(rng, r, view, res, ctx, what, virtual=False)
        metadata(ctx, copy, view, r, what)
        probs = FileValidator(H5File(copy).files[0]).run_checks()
        ctx.count('validated')
        ctx.check(not probs, 'validator', '%s: %r' % (what, probs), run=r.describe())
        res.files[0].close()
        os.unlink(copy)
