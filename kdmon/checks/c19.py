"""C19: serve_files and its command against the ground truth of the files."""
import os, subprocess, sys, threading, time, traceback
import numpy as np
from ..util import *
from .. import net
from .c05 import mutate_glob, key_glob

ID = 'C19'
RULE = ("random runs and single files served by serve_files, by its command's main() and by the command in another process, with source and key "
        "patterns, protocol versions and queue lengths, to 1-4 clients with random delays; every message is compared with the ground truth, and the "
        "end of serving is awaited; distinct by selection, trains and served order")
ASSUME = ["clients follow the protocol and leave only between requests, and go on requesting until all trains are sent",
          "the server is stuck if it makes no progress for %d s while a client is waiting" % net.STALL]
MINIMUM = {'trains': 1000, 'values': 5000, 'filtered': 100, 'main': 60, 'command': 3, 'files': 40}
LIMIT = {'quick': 600, 'thorough': 7200}
stuck = False


def cases(tier, seed):
    n, m = {'quick': (500, 6), 'thorough': (6000, 60)}[tier]
    return [('big', seed, i) for i in range(2)] + [('cmd', seed, i) for i in range(m)] + [('s', seed, i) for i in range(n)]


def big_run(rng):
    from .. import gen
    r = gen.Run()
    s = gen.Source('SPB_DET_AGIPD1M-1/DET/3CH0:xtdf', 'I', [gen.Key('image.data', 'f4', (4, 1200, 1000))])
    r.sources[s.name] = s
    trains = [10000, 10001]
    r.files = [gen.FileSpec('RAW-R0001-AGIPD03-S00000.h5', trains, [s.name])]
    s.counts['image'] = {t: 2 for t in trains}
    s.data['image.data'] = {t: np.arange(9600000, dtype='f4').reshape(2, 4, 1200, 1000) + t for t in trains}
    return r


def run_case(case, ctx):
    global stuck
    if stuck:
        raise Skip
    from karabo_data import export
    rng = rng_for(ID, *case)
    cmd = case[0] == 'cmd'
    big = case[0] == 'big'
    if big:
        # the last message takes a while to be transferred
        r, d = big_run(rng), ctx.dir('run')
        r.write(d)
        ctx.count('big')
    else:
        r, d = make_run(rng, ctx, ctrl_holes=rng.random() < .15, empty_file=0.04)
    if not big and rng.random() < .25:       # files can have any name
        names = rng.sample(['extra.h5', 'x y.h5', 'RAW.h5', '0.h5', 'CORR-R0001-A-S00000.h5', 'a.b.c.h5', 'z_S1.h5', '-.h5'], min(len(r.files), 8))
        for f, nm in zip(r.files, names):
            if rng.random() < .6:
                os.rename(os.path.join(d, f.name), os.path.join(d, nm))
                f.name = nm
                ctx.count('renamed')
    ctx.sample(r.describe())
    path, view = d, model.View(r)
    if not big and rng.random() < .3:
        f = rng.choice([f for f in r.files if f.trains])
        srcs = [s for s in f.sources if s in r.sources]
        if not srcs:
            raise Skip
        path, view = os.path.join(d, f.name), model.View(r, f.trains, {s: set(r.sources[s].keys) for s in srcs})
        ctx.count('files')
    sg = kg = '*'
    if not big and rng.random() < .6:
        for _ in range(50):
            s = rng.choice(sorted(view.sel))
            sg = mutate_glob(rng, s) if rng.random() < .8 else '*'
            kg = key_glob(rng, r, s) if rng.random() < .6 else '*'
            if view.glob([(sg, kg)]):
                break
        else:
            sg = kg = '*'
    sel = view.glob([(sg, kg)])
    if sel != view.sel:
        ctx.count('filtered')
    exp = model.View(r, view.trains, sel)
    trains = view.trains
    version, maxlen, dummy = '2.2', 10, False
    how = 'cmd' if cmd or big and case[2] == 0 else rng.choice(['serve', 'serve', 'main'])
    port = net.free_port()
    if how == 'serve':
        version = rng.choice(['1.0', '2.2', '2.2'])
        maxlen = rng.choice([1, 2, 10])
        dummy = rng.random() < .2
        kw = {}
        if version != '2.2':
            kw['protocol_version'] = version
        if maxlen != 10:
            kw['maxlen'] = maxlen
        if dummy:
            kw['dummy_timestamps'] = True
        if sg != '*' or rng.random() < .3:
            kw['source_glob'] = sg
        if kg != '*' or rng.random() < .3:
            kw['key_glob'] = kg
        call = lambda: export.serve_files(path, port, **kw)
        what = 'serve_files(%s, %r)' % ('file' if path != d else 'run', kw)
    else:
        argv = [path, str(port)]
        if sg != '*' or rng.random() < .3:
            argv += ['--source', sg] if rng.random() < .5 else ['--source=' + sg]
        if kg != '*' or rng.random() < .3:
            argv += ['--key', kg] if rng.random() < .5 else ['--key=' + kg]
        if rng.random() < .3:
            argv = argv[2:] + argv[:2]
        call = lambda: export.main(argv)
        what = 'karabo-bridge-serve-files %s' % ' '.join(argv)
        ctx.count('main')
    S = net.Session()
    n = len(trains)
    result = {}

    def server():
        try:
            call()
            result['ended'] = True
        except BaseException as e:
            result['error'] = e
            result['tb'] = traceback.format_exc()[-1500:]
            S.stop.set()

    proc = None
    if how == 'cmd':
        ctx.count('command')
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path))
        env.pop('LD_PRELOAD', None)
        log = open(os.path.join(ctx.dir('log'), 'log'), 'w+b')
        proc = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', 'from karabo_data.export import main; main()'] + argv, env=env,
                                stdout=log, stderr=log, stdin=subprocess.DEVNULL)
        def server():
            rc = proc.wait()
            if rc:
                log.seek(0)
                result['error'] = RuntimeError('exit status %d' % rc)
                result['tb'] = log.read().decode(errors='replace')[-1500:]
                S.stop.set()
            else:
                result['ended'] = True
    th = threading.Thread(target=server, daemon=True)
    tickets = iter(range(n))
    tlock = threading.Lock()
    ncl = rng.choice([1, 1, 2, 4])
    slow = rng.choice([0, 0, .003])
    seeds = [rng.random() for _ in range(ncl)]

    def client(c):
        import random
        q = random.Random(seeds[c])
        cl, life = None, 0
        try:
            while True:
                with tlock:
                    if next(tickets, None) is None:
                        return
                if life <= 0:
                    if cl:
                        cl.close()
                    cl, life = net.Client(port, S, 'client %d' % c), q.choice([1, 3, 1000])
                life -= 1
                if not cl.next():
                    return
                if slow:
                    time.sleep(q.random() * slow)
        except Exception as e:
            S.errors.append(e)
        finally:
            if cl:
                cl.close()

    late = rng.random() < .3
    if late:
        th.start()
        time.sleep(rng.random() * .05)
    cs = [threading.Thread(target=client, args=(c,), daemon=True) for c in range(ncl)]
    for c in cs:
        c.start()
    if not late:
        th.start()
    try:
        for c in cs:
            c.join()
        if S.errors:
            raise S.errors[0]
        th.join(net.STALL)
    finally:
        if proc and proc.poll() is None:
            proc.kill()
    if 'error' in result:
        ctx.check(False, 'serving-failed', '%s: %s: %s' % (what, type(result['error']).__name__, result['error']), traceback=result['tb'], run=r.describe())
        if th.is_alive():
            stuck = True
        raise Stop
    verify(ctx, S, exp, trains, version, dummy, what)
    ctx.count('trains', len(S.log))
    alive = th.is_alive()
    if alive or len(S.log) < n:
        stuck = True    # do not wait again and again
    ctx.check(not alive, 'does-not-end', '%s: serving did not end after %d trains were requested' % (what, n), run=r.describe())
    ctx.seen(how, version, tuple(sorted((s, len(k)) for s, k in sel.items())), len(trains), tuple(e[2] for e in S.log))


def verify(ctx, S, exp, trains, version, dummy, what):
    r = exp.run
    seen, log = {}, []
    for e in S.log:
        try:
            data, meta = net.decode(e[3], version)
            tids = {int(m['timestamp.tid']) for m in meta.values()}
            (tid,) = tids
        except Exception as x:
            ctx.check(False, 'malformed', '%s: %r' % (what, x))
            continue
        if not ctx.check(tid in trains, 'extra-train', '%s: train %d was not selected' % (what, tid)):
            continue
        seen.setdefault(tid, []).append((data, meta))
        log.append(e)
    ctx.check(all(len(v) == 1 for v in seen.values()), 'duplicated', '%s: trains sent again: %r' % (what, [t for t, v in seen.items() if len(v) > 1]))
    miss = [t for t in trains if t not in seen]
    ctx.check(not miss, 'lost', '%s: trains %r of %d were not received; %d requests, %d replies' % (what, miss[:10], len(trains), S.requests, len(S.log)), run=r.describe())

    def index(parts):
        d, m = net.decode(parts, version)
        return trains.index(int(next(iter(m.values()))['timestamp.tid']))
    bad = net.fifo_errors(log, index)
    ctx.check(not bad, 'order', '%s: %r' % (what, bad[:3]))
    for tid, v in seen.items():
        data, meta = v[0]
        want = exp.train(tid)
        for s in list(want):
            if s not in data and not source_visible(r, s, trains):
                del want[s]
        diffs = net.differences(want, data, version, ('metadata',))
        ctx.count('values', sum(len(x) for x in want.values()))
        ctx.check(not diffs, 'content', '%s: train %d: %s' % (what, tid, diffs[:4]), run=r.describe())
        for s, m in meta.items():
            ok = m.get('source') == s and m.get('timestamp.tid') == tid and (not dummy or 'timestamp.sec' in m)
            ctx.check(ok, 'metadata', '%s: train %d: metadata %r for %s' % (what, tid, m, s))
