"""C27: results in random interleaved histories against freshly opened runs."""
import gc, os, threading
import numpy as np
from ..util import *
from .. import det, gen, model, ops

ID = 'C27'
RULE = ("random runs (mixed and detector) x histories of 12-30 operations over a growing family of collections sharing open files: reads of every kind, "
        "writes, partly consumed and interleaved iterations, selections, unions, closings, dropped collections, modified results and arguments, threads; "
        "every result is compared with the same operation on a newly opened run, and arrays and trains with the ground truth too; distinct by pair of "
        "consecutive operations and state")
ASSUME = ["results modified by the caller are arrays, series, data frames, train dictionaries and sets of keys"]
cases = std_cases({'quick': 640, 'thorough': 12000})
MINIMUM = {'ops': 2300, 'fresh': 2600, 'model': 6000, 'derived': 1000, 'closed': 230, 'iter_items': 400, 'interleaved': 90,
           'modified': 1500, 'repeated': 450, 'threads': 120, 'detector_runs': 110}


class Member:
    def __init__(self, rec, dc):
        self.rec, self.dc = rec, dc


def run_case(case, ctx):
    import karabo_data.components as kdc
    from karabo_data import by_index
    rng = rng_for(ID, *case)
    if rng.random() < .35:
        r = det.gen_det_run(rng, max_trains=5, max_mods=3)
        ctx.count('detector_runs')
    else:
        r = gen.gen_run(rng, max_trains=8)
        if not r.sources:
            raise Skip
    d = ctx.dir('run')
    r.write(d)
    ctx.sample(r.describe())
    tmp1, tmp2 = ctx.dir('o'), ctx.dir('o')
    members, iters, log, past = [], [], [], []
    serial = 0
    last = 'start'

    def fresh(rec):
        return ops.build(rec, r, d)

    def where():
        return ' | '.join(log[-8:])

    def add(rec, dc):
        members.append(Member(rec, dc))
        if len(members) > 8:
            members.pop(rng.randrange(len(members)))
            gc.collect()

    def root():
        rec = ops.choose_root(rng, r)
        try:
            dc = fresh(rec)
        except Exception as e:
            if 'No HDF5 files' in str(e):
                return
            raise
        log.append('open %r' % (rec,))
        add(rec, dc)

    def compare(m, op, got, what):
        want = ops.outcome(fresh(m.rec), op, tmp2, serial)[1]
        ctx.count('fresh')
        ctx.check(got == want, 'differs', '%s of %r is %.600r; on a newly opened run it is %.600r' % (what, m.rec, got, want),
                  history=where(), run=r.describe())
        ctx.seen(last, op[0], ops.depth(m.rec), got[0] == 'raises')

    def check_truth(m, op, x, what):
        """Ground truth for arrays and trains"""
        dc = m.dc
        if op[0] == 'array' and op[3] is None:
            k = r.sources[op[1]].keys[op[2]]
            view = model.View(r, [int(t) for t in dc.train_ids])
            view.trains = [t for t in view.trains if any(op[1] in f.sources and t in f.trains for f in r.files
                                                         if f.name in {os.path.basename(a.filename) for a in dc.files})]
            exp, tids = view.array(op[1], op[2])
            ctx.count('model')
            ctx.check(model.same(x.values, exp) and x.coords['trainId'].values.tolist() == tids.tolist(), 'array',
                      '%s of %r: %s' % (what, m.rec, model.diff(x.values, exp)), history=where(), run=r.describe())
        elif op[0] in ('train', 'train_index', 'trains'):
            for tid, data in (x if op[0] == 'trains' else [x]):
                truth_train(m, tid, data, what)

    def truth_train(m, tid, data, what):
        names = {os.path.basename(a.filename) for a in m.dc.files}
        for s, vals in data.items():
            if s not in r.sources:
                ctx.violation('train-source', '%s has unknown %s' % (what, s), history=where())
                continue
            src = r.sources[s]
            have = any(s in f.sources and tid in f.trains and f.name in names for f in r.files)
            for k in m.dc.keys_for_source(s):
                a = src.data[k].get(tid) if have and k in src.keys else None
                e = None if a is None or not len(a) else (a[0] if len(a) == 1 else a)
                ctx.count('model')
                g = vals.get(k)
                ok = (e is None) == (g is None) and (e is None or model.same(np.asarray(g), np.asarray(e)))
                ctx.check(ok, 'train', '%s of %r: train %d %s %s is %r instead of %r' % (what, m.rec, tid, s, k, g, e),
                          history=where(), run=r.describe())

    root()
    if not members:
        return
    for step in range(rng.randint(12, 30)):
        if len(ctx.violations) > 3:
            break
        act = rng.choice(['op'] * 9 + ['derive'] * 4 + ['iter'] * 2 + ['next'] * 3 + ['close', 'repeat', 'repeat', 'drop', 'root', 'args', 'thread'])
        if not members:
            act = 'root'
        m = rng.choice(members) if members else None
        if act == 'root':
            root()
        elif act == 'op':
            op = ops.choose_op(rng, r, m.dc)
            serial += 1
            x, got = ops.outcome(m.dc, op, tmp1, serial)
            ctx.count('ops')
            log.append('%r on %r' % (op, m.rec))
            compare(m, op, got, 'after a history, %r' % (op,))
            if got[0] != 'raises':
                check_truth(m, op, x, 'after a history, %r' % (op,))
            past.append((m, op, got))
            last = op[0]
            if rng.random() < .6 and x is not None:
                ops.spoil(x)
                ctx.count('modified')
                log.append('(modified)')
                if rng.random() < .5:
                    serial += 1
                    again = ops.outcome(m.dc, op, tmp1, serial)[1]
                    ctx.check(again == got, 'modified', 'after modifying the result, %r of %r is %.500r instead of %.500r' % (op, m.rec, again, got),
                              history=where(), run=r.describe())
        elif act == 'repeat' and past:
            m, op, got = rng.choice(past[-12:])
            serial += 1
            x, again = ops.outcome(m.dc, op, tmp1, serial)
            ctx.count('repeated')
            log.append('again %r on %r' % (op, m.rec))
            ctx.check(again == got, 'repeat', 'repeating %r on %r gives %.500r instead of %.500r' % (op, m.rec, again, got),
                      history=where(), run=r.describe())
            last = 'repeat'
        elif act == 'derive':
            rec = ops.choose_step(rng, m.dc, m.rec, [x.rec for x in members])
            if ops.depth(rec) > 5:
                continue
            bases = [m.dc]
            if rec[0] == 'union':
                bases += [next(x.dc for x in members if x.rec == q) for q in rec[1][1:]]
            before = [snapshot(b) for b in bases]
            ctx.count('derived')
            log.append('derive %r' % (rec,))
            try:
                dc = ops.derive(rec, bases, r)
            except Exception as e:
                try:
                    fresh(rec)
                    ctx.violation('derive', 'deriving %r failed: %r, but not on newly opened files' % (rec, e), history=where())
                except Exception as e2:
                    ctx.check(type(e) is type(e2), 'derive-error', '%r instead of %r' % (e, e2), history=where())
            else:
                add(rec, dc)
                ctx.check(snapshot(dc) == snapshot(fresh(rec)), 'derived', 'deriving %r gives %.500r instead of %.500r' % (
                    rec, snapshot(dc), snapshot(fresh(rec))), history=where(), run=r.describe())
            ctx.check([snapshot(b) for b in bases] == before, 'original-changed', 'deriving %r changed the original' % (rec,), history=where())
            last = rec[0]
        elif act == 'args':
            # arguments of a selection modified afterwards
            srcs = sorted(m.dc.all_sources)
            if not srcs:
                continue
            if rng.random() < .6:
                s = rng.choice(srcs)
                arg = {s: set(rng.sample(sorted(m.dc.keys_for_source(s)), rng.randint(0, len(m.dc.keys_for_source(s)))))}
                rec = ('select', (m.rec,), {s: set(arg[s])})
                dc = m.dc.select(arg)
                arg[s].clear() if rng.random() < .5 else arg[s].add('spoilt')
                arg.clear()
            else:
                from karabo_data import by_id
                tids = random_subset(rng, [int(t) for t in m.dc.train_ids])
                if not tids:
                    continue
                arg = list(tids) if rng.random() < .5 else np.array(tids, 'u8')
                rec = ('trains', (m.rec,), ('id-list' if isinstance(arg, list) else 'id-arr', tuple(tids)))
                dc = m.dc.select_trains(by_id[arg])
                arg[:] = [7] * len(arg)
            log.append('select then modify argument %r' % (rec,))
            ctx.count('modified')
            add(rec, dc)
            ctx.check(snapshot(dc) == snapshot(fresh(rec)), 'argument', 'after modifying the argument, %r has %.500r' % (rec, snapshot(dc)), history=where())
            last = 'args'
        elif act == 'iter':
            ra = rng.random() < .4
            make = lambda dc: dc.trains(require_all=ra)
            if rng.random() < .6 and hasattr(r, 'det'):
                cls = getattr(kdc, det.CLS[r.det])
                by = rng.choice([slice(None), slice(0, 1), slice(None, None, 2)])
                make = lambda dc: cls(dc).trains(pulses=by_index[by])
                ra = 'detector'
            try:
                mine = iter(make(m.dc))
            except Exception as e:
                continue
            want = list(make(fresh(m.rec)))
            iters.append([m, mine, [ops.norm(x) for x in want], 0, ra])
            ctx.count('iters_%s' % ra)
            log.append('iter(require_all=%r) on %r' % (ra, m.rec))
            last = 'iter'
        elif act == 'next' and iters:
            if len(iters) > 1:
                ctx.count('interleaved')
            it = rng.choice(iters)
            for _ in range(rng.randint(1, 3)):
                try:
                    item = next(it[1])
                except StopIteration:
                    ctx.check(it[3] == len(it[2]), 'iteration-end', 'interleaved iteration over %r ended after %d of %d trains' % (it[0].rec, it[3], len(it[2])),
                              history=where(), run=r.describe())
                    iters.remove(it)
                    break
                ctx.count('iter_items')
                ok = it[3] < len(it[2]) and ops.norm(item) == it[2][it[3]]
                ctx.check(ok, 'iteration', 'interleaved iteration over %r (require_all=%r) gives %.500r as item %d instead of %.500r' % (
                    it[0].rec, it[4], ops.norm(item), it[3], it[2][it[3]] if it[3] < len(it[2]) else None), history=where(), run=r.describe())
                it[3] += 1
                if rng.random() < .4:
                    ops.spoil(item[1])
                    ctx.count('modified')
            log.append('next on %r' % (it[0].rec,))
            last = 'next'
        elif act == 'close':
            if rng.random() < .5 and m.rec[0] in ('run', 'file', 'include'):
                try:
                    with m.dc:
                        if rng.random() < .5:
                            ops.outcome(m.dc, ops.choose_op(rng, r, m.dc, outs=False), tmp1)
                        if rng.random() < .4:
                            raise KeyError('leaving the block')
                except KeyError:
                    pass
            else:
                for f in random_subset(rng, list(m.dc.files)):
                    f.close()
            ctx.count('closed')
            log.append('close %r' % (m.rec,))
            last = 'close'
        elif act == 'drop':
            if len(members) > 1:
                members.remove(m)
                del m
                past = [p for p in past if p[0] in members]
                iters = [i for i in iters if i[0] in members or rng.random() < .5]
                gc.collect()
                log.append('drop')
        elif act == 'thread' and rng.random() < .5:
            todo = []
            for _ in range(rng.randint(2, 3)):
                mm = rng.choice(members)
                op = ops.choose_op(rng, r, mm.dc, outs=False)
                if op[0] in ('info', 'train_info', 'det_info'):     # redirected output is shared
                    op = ('trains',)
                todo.append([mm, op, None])
            ctx.count('threads')
            threaded(todo, rng)
            log.append('threads %r' % [(x[0].rec, x[1]) for x in todo])
            for mm, op, got in todo:
                compare(mm, op, got, 'in a thread, %r' % (op,))
            last = 'thread'


def threaded(todo, rng):
    gate = threading.Barrier(len(todo))

    def work(x):
        gate.wait()
        x[2] = ops.outcome(x[0].dc, x[1], None, capture=False)[1]

    ts = [threading.Thread(target=work, args=(x,)) for x in todo]
    [t.start() for t in ts]
    [t.join() for t in ts]


def snapshot(dc):
    return (sorted(dc.control_sources), sorted(dc.instrument_sources), [int(t) for t in dc.train_ids],
            {s: sorted(dc.keys_for_source(s)) for s in dc.all_sources})
