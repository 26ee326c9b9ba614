"""C11: the map path never shows a torn or untrue map, whoever dies or races."""
import errno, json, os, signal, time
from ..util import *
from ..mapworld import World, Shim
from .c10 import good_map, open_dir

ID = 'C11'
RULE = ("(a) an opener is killed before/after/in the middle of each system call it makes on map paths, the map path inspected and "
        "the run reopened; (b) forked openers with random delays, kills and faults while files are replaced atomically and an "
        "observer reads the map path all the time; (c) a file replaced between being read and the map being saved; "
        "distinct by (crash point, action, start state) and by distinct map contents observed")
ASSUME = ["data files are replaced atomically by rename, as a transfer would do", "process death, not power failure: the kernel keeps what was written"]
NEEDS_SHIM = True
MINIMUM = {'crashes': 150, 'openers_finished': 250, 'maps_judged': 500, 'replaced_while_open': 10, 'killed': 20}


def cases(tier, seed):
    a, b, c = {'quick': (24, 32, 24), 'thorough': (300, 500, 300)}[tier]
    return [('crash', seed, i) for i in range(a)] + [('race', seed, i) for i in range(b)] + [('late', seed, i) for i in range(c)]


def read_maps(w):
    out = []
    for p in w.map_paths():
        try:
            with open(p, 'rb') as f:
                out.append((p, f.read()))
        except FileNotFoundError:
            pass
    return out


def fork_opener(w, rng, fn=None):
    """Open the run in a child; exit 0 on success, 3 on failure"""
    seed = rng.randrange(1 << 30)
    pid = os.fork()
    if pid:
        return pid
    code = 3
    try:
        from karabo_data import RunDirectory
        if fn:
            fn()
        with quiet():
            dc = RunDirectory(w.dir)
        code = 0
    except BaseException:
        import traceback
        try:
            with open(os.path.join(w.base, 'child-%d.txt' % os.getpid()), 'w') as f:
                traceback.print_exc(file=f)
        except OSError:
            pass
    finally:
        os._exit(code)


def child_error(w, pid):
    p = os.path.join(w.base, 'child-%d.txt' % pid)
    return open(p).read()[-1500:] if os.path.exists(p) else '(no traceback)'


def crash(case, ctx):
    shim = Shim()
    rng = rng_for(ID, *case)
    w = World(rng, ctx.dir('w'), located=rng.random() < .3, max_trains=rng.choice([6, 700, 1500]), gaps=False, empty_file=0)
    ctx.sample(dict(crash=case, files=len(w.full.files), trains=len(w.full.trains)))
    with w.located_env():
        mp = w.map_paths()
        start = rng.choice(['none', 'partial', 'stale', 'good'])
        match = 'karabo_data_map'

        def setup():
            for p in mp:
                if os.path.exists(p):
                    os.unlink(p)
            for x in w.extra_files():
                os.unlink(x if os.path.isabs(x) else os.path.join(w.dir, x))
            if start != 'none':
                g = good_map(w)
                if start == 'partial':
                    g = g[:-1]
                if start == 'stale':
                    g = g[1:]
                for p in mp[:1]:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'w') as f:
                        json.dump(g, f, indent=2)

        setup()
        dc_before = w.hashes()
        shim.arm(match)
        dc, _ = open_dir(w, rng, ctx)
        n = shim.disarm()
        points = shim.trace()
        w.close(dc)
        todo = [(k, a) for k in range(1, n + 1) for a in ('EXIT_BEFORE', 'EXIT_AFTER')] + \
            [(k, 'TORN_EXIT') for k in range(1, n + 1) if points[k - 1] == 'write']
        if len(todo) > 40:
            todo = rng.sample(todo, 40)
        for k, a in todo:
            setup()
            before = dict(read_maps(w))
            pid = fork_opener(w, rng, lambda: shim.arm(match, k, a))
            _, st = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(st)
            what = 'killed %s call %d (%s), start %s' % (a, k, points[k - 1], start)
            if code == 3:
                ctx.violation('open-failed', '%s: %s' % (what, child_error(w, pid)))
                return
            if code == 77:
                ctx.count('crashes')
                ctx.seen('crash', points[k - 1], a, start, w.located, min(k, 12))
            for p, txt in read_maps(w):
                w.judge_map(txt, ctx, what)
                ctx.count('maps_judged')
                if txt != before.get(p):
                    ctx.count('map_changed_at_crash')
            ctx.check(all(p in dict(read_maps(w)) for p in before), 'map-vanished', what)
            left = w.extra_files()
            dc, _ = open_dir(w, rng, ctx)
            w.compare(dc, ctx, 'reopening after ' + what, nfields=1)
            w.close(dc)
            ctx.count('openers_finished')
            now = w.extra_files()
            ctx.check(set(now) <= set(left), 'temp-left', '%s: reopening left %r' % (what, sorted(set(now) - set(left))))
            maps = read_maps(w)
            ctx.check(bool(maps), 'no-map', 'after %s and reopening there is no map' % what)
            ctx.check(len(left) <= 2, 'temp-many', '%s: left %r' % (what, left))
            for p, txt in maps:
                w.judge_map(txt, ctx, 'reopening after ' + what)
            ctx.check(w.hashes() == dc_before, 'data-touched', what)
            if ctx.violations:
                return
        # an opener which fails but finishes must clean up after itself
        for k in range(1, n + 1):
            for e in ('ENOSPC', 'EIO'):
                if points[k - 1] in ('unlink', 'unlinkat'):
                    continue
                setup()
                before = dict(read_maps(w))
                shim.arm(match, k, 'FAIL', getattr(errno, e), persist=rng.random() < .3)
                what = '%s in call %d (%s), start %s' % (e, k, points[k - 1], start)
                try:
                    dc, _ = open_dir(w, rng, ctx)
                except Exception as x:
                    shim.disarm()
                    ctx.violation('open-failed', '%s: %r' % (what, x))
                    return
                shim.disarm()
                w.close(dc)
                for p, txt in read_maps(w):
                    w.judge_map(txt, ctx, what)
                    ctx.count('maps_judged')
                ctx.check(not w.extra_files(), 'temp-left', '%s: left %r' % (what, w.extra_files()), trace=shim.trace()[-10:])
                ctx.check(all(p in dict(read_maps(w)) for p in before), 'map-vanished', what)
                ctx.count('failed_saves')
                if ctx.violations:
                    return
            if k > 14:
                break


def race(case, ctx):
    """Several openers at once, watched all the time"""
    shim = Shim()
    rng = rng_for(ID, *case)
    w = World(rng, ctx.dir('w'), located=rng.random() < .3, max_trains=rng.choice([20, 400, 1000]), gaps=False, empty_file=0)
    replacing = rng.random() < .5
    kills = rng.random() < .5
    delay = rng.choice([0, 300, 3000])
    nproc = rng.choice([2, 3, 5])
    seen = set()
    with w.located_env():
        start = w.hashes()
        alive = {}
        todo = rng.choice([12, 20])
        killed = failed = done = 0
        t_end = time.time() + 30
        while (todo or alive) and time.time() < t_end:
            while todo and len(alive) < nproc:
                todo -= 1
                s = rng.randrange(1 << 20)
                pid = fork_opener(w, rng, (lambda: shim.arm('karabo_data_map', 0, 'DELAY', 0, delay, s)) if delay else None)
                alive[pid] = (time.time(), rng.random() * .02 if kills and rng.random() < .3 else None)
            for p, txt in read_maps(w):
                if txt not in seen:
                    seen.add(txt)
                    w.judge_map(txt, ctx, 'while %d openers run' % len(alive))
                ctx.count('maps_judged')
            if rng.random() < .05:
                # the map disappears now and then, so that somebody saves again
                for p in w.map_paths():
                    if os.path.exists(p):
                        os.unlink(p)
            if replacing and rng.random() < .05:
                spec, src = w.changed_version(rng.choice(sorted(w.current)), safe=True)
                put_registered(w, spec, src)
                ctx.count('replaced')
            for pid in list(alive):
                t0, kill = alive[pid]
                if kill is not None and time.time() - t0 > kill:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    alive[pid] = (t0, None)
                r, st = os.waitpid(pid, os.WNOHANG)
                if r:
                    del alive[pid]
                    code = os.waitstatus_to_exitcode(st)
                    if code == -9:
                        killed += 1
                        ctx.count('killed')
                    elif code == 0:
                        done += 1
                        ctx.count('openers_finished')
                    else:
                        failed += 1
                        ctx.violation('open-failed', 'an opener failed (%s) while others were running: %s' % (code, child_error(w, pid)))
            if ctx.violations:
                break
        for pid in alive:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            killed += 1
        for txt in seen:
            ctx.seen('map', hash(txt), case)
        ctx.count('distinct_maps', len(seen))
        what = 'after %d openers (%d killed)' % (done, killed)
        left = w.extra_files()
        ctx.check(len(left) <= killed, 'temp-left', '%s: left %r' % (what, left))
        dc, _ = open_dir(w, rng, ctx)
        w.compare(dc, ctx, what)
        w.close(dc)
        for p, txt in read_maps(w):
            w.judge_map(txt, ctx, what)
        if not replacing:
            ctx.check(w.hashes() == start, 'data-touched', what)


def put_registered(w, spec, src):
    """Replace a file so that its state is known before others can see it"""
    from .. import gen
    name = spec.name
    tmp = os.path.join(w.base, 'tmp.h5')
    r = gen.Run()
    r.sources = src
    r.write_file(spec, tmp)
    w.stamp(tmp)
    st = os.stat(tmp)
    w.truth[(name, st.st_size, st.st_mtime)] = dict(
        train_ids=list(spec.trains), control_sources=sorted(s for s in spec.sources if src[s].kind == 'C'),
        instrument_sources=sorted(s for s in spec.sources if src[s].kind == 'I'))
    os.replace(tmp, os.path.join(w.dir, name))
    w.current[name] = (spec, src)


def late(case, ctx):
    """Every file is replaced while an opener is held up by a slow, unusable one (a pipe)"""
    rng = rng_for(ID, *case)
    w = World(rng, ctx.dir('w'), located=False, max_trains=6, empty_file=0)
    if rng.random() < .4:
        dc, _ = open_dir(w, rng, ctx)      # leave a map
        w.close(dc)
        for n in sorted(w.current):
            spec, src = w.changed_version(n, safe=True)
            put_registered(w, spec, src)
    fifo = os.path.join(w.dir, rng.choice(['AAA.h5', 'ZZZ.h5', 'RAW-R0001-DA99-S00000.h5']))
    os.mkfifo(fifo)
    w.junk[os.path.basename(fifo)] = 'fifo'
    pid = fork_opener(w, rng)
    t0 = time.time()
    replaced = False
    code = None
    while time.time() - t0 < 30:
        try:
            fd = os.open(fifo, os.O_WRONLY | os.O_NONBLOCK)
        except OSError:
            time.sleep(.002)
        else:
            if not replaced:
                for n in sorted(w.current):
                    spec, src = w.changed_version(n, safe=True)
                    put_registered(w, spec, src)
                replaced = True
            os.close(fd)
        r, st = os.waitpid(pid, os.WNOHANG)
        if r:
            code = os.waitstatus_to_exitcode(st)
            break
    if code is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise RuntimeError('opener got stuck on a pipe')
    os.unlink(fifo)
    w.junk.clear()
    ctx.check(code == 0, 'open-failed', 'opener failed while files were replaced: ' + child_error(w, pid))
    if replaced:
        ctx.count('replaced_while_open')
    for p, txt in read_maps(w):
        data = w.judge_map(txt, ctx, 'files replaced before the map was saved')
        ctx.count('maps_judged')
        if data:
            cur = sum(1 for x in data if os.path.exists(os.path.join(w.dir, x['filename'])) and
                      os.stat(os.path.join(w.dir, x['filename'])).st_mtime == x['mtime'])
            ctx.count('entries_of_replaced_files', len(data) - cur)
            ctx.seen('late', len(data), cur)
    dc, _ = open_dir(w, rng, ctx)
    w.compare(dc, ctx, 'files replaced before the map was saved')
    w.close(dc)
    ctx.check(not w.extra_files(), 'temp-left', repr(w.extra_files()))


def run_case(case, ctx):
    {'crash': crash, 'race': race, 'late': late}[case[0]](case, ctx)
