"""C18: trains fed to the streamer against the messages clients receive."""
import copy, os, pickle, subprocess, sys, threading, time
import numpy as np
from ..util import *
from .. import net

ID = 'C18'
RULE = ("a feeding thread, a ZMQStreamer and 1-5 REQ client threads which join, pause and leave at random, with random delays on either side; "
        "every request and reply is logged on one logical clock and checked for exactly-once delivery, FIFO order, bounded backlog, progress and "
        "content; some histories stop and restart the streamer; some clients are the karabo_bridge package in another process; "
        "distinct by order in which clients were served and by types of value")
ASSUME = ["clients follow the protocol (send b'next', and wait for the reply)",
          "a client that leaves does so between requests; data is not modified between feed() and delivery",
          "values are Python built-in types, numpy scalars and arrays of numbers, booleans, fixed-size strings or string objects"]
MINIMUM = {'delivered': 3000, 'clients': 500, 'values': 25000, 'bridge_client': 3, 'restarts': 30, 'stopped': 200, 'full_queue': 50, 'stopped_with_queue': 40}
LIMIT = {'quick': 600, 'thorough': 7200}

stuck = False


def cases(tier, seed):
    n, m = {'quick': (360, 8), 'thorough': (12000, 100)}[tier]
    return [('kb', seed, i) for i in range(m)] + [('s', seed, i) for i in range(n)]


def value(rng, seen):
    kinds = ['int', 'neg', 'big', 'float', 'nan', 'str', 'ustr', 'bytes', 'bool', 'none', 'list', 'tuple', 'nested', 'arr', 'arr', 'arr', 'arr',
             'npint', 'npfloat', 'npbool', 'zero', '0d', 'T', 'strided', 'fortran', 'S', 'obj', 'readonly', 'empty', 'bytearray', 'be', 'boolarr', 'huge', 'slice']
    k = rng.choice(kinds)
    seen.append(k)
    n = rng.randint(1, 5)
    dt = rng.choice(['u1', 'u2', 'i2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'f2'])
    base = (np.arange(2 * n * 3).reshape(2, n, 3) + rng.randrange(100)).astype(dt)
    return {
        'int': lambda: rng.randrange(1 << 31), 'neg': lambda: -rng.randrange(1, 1 << 40), 'big': lambda: (1 << 64) - 1,
        'float': lambda: rng.random() * 1e300, 'nan': lambda: float('nan'), 'str': lambda: 'x' * rng.randrange(300), 'ustr': lambda: 'µ-\u2603-\0',
        'bytes': lambda: bytes(range(rng.randrange(256))), 'bool': lambda: rng.random() < .5, 'none': lambda: None,
        'list': lambda: [1, 'a', 2.5, None, True, [b'q']], 'tuple': lambda: (1, (2, 3), 'z'), 'nested': lambda: {'a': {'b': [1, {'c': 2}]}, 'd': b'\xff'},
        'arr': lambda: base, 'npint': lambda: np.dtype(rng.choice(['u1', 'i4', 'u8', 'i8'])).type(rng.randrange(200)), 'npfloat': lambda: np.float32(rng.random()),
        'npbool': lambda: np.bool_(rng.random() < .5), 'zero': lambda: np.zeros(rng.choice([(0,), (0, 3), (3, 0), (2, 0, 4)]), dt), '0d': lambda: np.array(rng.randrange(99), dt),
        'T': lambda: base.T, 'strided': lambda: base[:, ::2, ::-1], 'fortran': lambda: np.asfortranarray(base), 'S': lambda: np.array([b'ab', b'c', b''], 'S%d' % n),
        'obj': lambda: np.array([b'abc', b'', b'\xff' * n], object), 'readonly': lambda: np.broadcast_to(np.arange(3, dtype=dt), (n, 3)), 'empty': lambda: rng.choice(['', b'', [], {}]),
        'bytearray': lambda: bytearray(b'xyz'), 'be': lambda: base.astype('>' + dt), 'boolarr': lambda: base % 2 == 0, 'huge': lambda: np.arange(rng.choice([3000, 200000]), dtype='u4'),
        'slice': lambda: base[:, 0, 1:],
    }[k]()


def train(rng, i, opts, seen):
    data = {}
    srcs = rng.sample(['SA1_XTD2_XGM/DOOCS/MAIN', 'FXE_DET_LPD1M-1/DET/0CH0:xtdf', 'FXE_DET_LPD1M-1/DET/10CH0:xtdf', 'a', 'A', 'b:out', 'Z/é'], rng.randint(1, 4))
    for s in srcs:
        d = data[s] = {}
        for j in range(rng.choice([0, 1, 2, 3, 6])):
            d[rng.choice(['image.data', 'x.value', 'data', 'a.b.c', 'y', 'image.gain', 'trainId', 'source', 'content', 'path']) + rng.choice(['', '', str(j)])] = value(rng, seen)
        if opts['mdin'] in ('data', 'both') and rng.random() < .8:
            d['metadata'] = {'source': s, 'timestamp.tid': 10000 + i}
            if rng.random() < .2:
                d['metadata'].update({'timestamp': 1234.5, 'timestamp.sec': '1234', 'timestamp.frac': '5'.ljust(18, '0')})
    data[srcs[0]]['#'] = i
    meta = None
    if opts['mdin'] in ('arg', 'both'):      # (what is given as an argument is what is sent)
        meta = {s: {'source': s, 'timestamp.tid': 777 + i, 'timestamp': 99.25} if rng.random() < .7 else {'x': s + str(i)} for s in srcs}
        if rng.random() < .2 and (opts['version'] != '1.0' or opts['mdin'] == 'arg') and len(srcs) > 1:
            meta[rng.choice(srcs)] = {}
    return data, meta


def share(rng, trains):
    """Use the same metadata objects for several trains"""
    if trains[0][1] is not None:
        m = {}
        for _, x in trains:
            for s in x:
                m.setdefault(s, x[s])
        trains[:] = [(d, m if rng.random() < .7 else x) for d, x in trains]
        return
    last = {}
    for d, _ in trains:
        for s, v in d.items():
            if 'metadata' in v:
                if s in last and rng.random() < .7:
                    v['metadata'] = last[s]
                last[s] = v['metadata']


def index_of(version):
    def f(parts):
        d, m = net.decode(parts, version)
        xs = [v['#'] for v in d.values() if '#' in v]
        if len(xs) != 1:
            raise ValueError('message with marks %r' % xs)
        x = xs[0]
        return x if isinstance(x, int) else int(x)
    return f


def check_content(ctx, version, dummy, want, meta, parts, what, decoded=None, when=None):
    try:
        got, gm = decoded or net.decode(parts, version)
    except Exception as e:
        ctx.check(False, 'malformed', '%s: %s' % (what, e))
        return
    # with version 1.0 the metadata travels inside the data
    ign = ('metadata',) if dummy or version == '1.0' else ()
    bad = net.differences(want, got, version, ign)
    ctx.count('values', sum(len(v) for v in want.values()))
    ctx.check(not bad, 'content', '%s: %s' % (what, bad[:5]))
    for s in want:
        m = dict(meta[s]) if meta else dict(want[s].get('metadata', {}))
        g = dict(gm.get(s) or {})
        if dummy and 'timestamp' not in m:
            ts = [g.pop(k, None) for k in ('timestamp', 'timestamp.sec', 'timestamp.frac')]
            ok = isinstance(ts[0], float) and isinstance(ts[1], str) and isinstance(ts[2], str) and ts[1].isdigit() and ts[2].isdigit() and len(ts[2]) == 18
            ctx.check(ok and abs(int(ts[1]) + int(ts[2]) * 1e-18 - ts[0]) < 1e-5, 'dummy-timestamps', '%s: %r' % (what, ts))
            if ok and when:
                ctx.count('dummy_timestamps')
                ctx.check(when[0] - .01 <= ts[0] <= when[1] + .01, 'dummy-timestamps', '%s: timestamp %r, fed between %r and %r' % ((what, ts[0]) + tuple(when)))
            for k in ('timestamp.sec', 'timestamp.frac'):
                m.pop(k, None)
        ctx.check(g == m, 'metadata', '%s: metadata of %s %r instead of %r' % (what, s, g, m))
        ctx.count('metadata')


BRIDGE = '''
import sys, pickle, warnings
warnings.simplefilter('ignore')
from karabo_bridge import Client
c = Client('tcp://127.0.0.1:%s' % sys.argv[1], timeout=float(sys.argv[4]))
import numpy as np
out = []
def enc(x):
    # (unpickling an array changes its byte order)
    if isinstance(x, np.ndarray) and not x.dtype.hasobject:
        return ('<array>', x.dtype.str, x.shape, x.tobytes())
    return {k: enc(v) for k, v in x.items()} if isinstance(x, dict) else x
try:
    for i in range(int(sys.argv[2])):
        d, m = c.next()
        out.append((enc(d), m))
finally:
    pickle.dump(out, open(sys.argv[3], 'wb'))
'''


def dec(x):
    if isinstance(x, tuple) and x[:1] == ('<array>',):
        return np.frombuffer(x[3], x[1]).reshape(x[2])
    return x


def run_case(case, ctx):
    global stuck
    if stuck:
        raise Skip
    from karabo_data.export import ZMQStreamer
    rng = rng_for(ID, *case)
    version = rng.choice(['1.0', '2.2', '2.2'])
    dummy = rng.random() < .3
    opts = {'mdin': rng.choice(['none', 'data', 'data', 'arg', 'both']), 'version': version}
    maxlen = rng.choice([1, 1, 2, 3, 10, 10])
    port = net.free_port()
    kw = {'maxlen': maxlen, 'protocol_version': version, 'dummy_timestamps': dummy}
    for k, dflt in (('maxlen', 10), ('protocol_version', '2.2'), ('dummy_timestamps', False)):
        if kw[k] == dflt and rng.random() < .7:
            del kw[k]
    st = ZMQStreamer(port if rng.random() < .7 else str(port), **kw)
    rounds = rng.choice([1, 1, 1, 2]) if case[0] == 's' else 1
    for rnd in range(rounds):
        if rnd:
            ctx.count('restarts')
        one_round(rng, ctx, st, port, version, dummy, opts, maxlen, bridge=case[0] == 'kb')


def one_round(rng, ctx, st, port, version, dummy, opts, maxlen, bridge):
    global stuck
    n = rng.choice([1, 3, 8, 20, 40])
    seen = []
    trains = [train(rng, i, opts, seen) for i in range(n)]
    if rng.random() < .5:
        share(rng, trains)
    want = copy.deepcopy(trains)
    times = [None] * n
    S = net.Session()
    nclients = rng.choice([1, 1, 2, 3, 5])
    what = 'protocol %s maxlen %d, %d trains, %d clients, dummy %r, metadata in %s' % (version, maxlen, n, nclients, dummy, opts['mdin'])
    ctx.sample(what)
    slow_feed, slow_get = rng.choice([(0, 0), (0, 0), (.002, 0), (0, .002), (.004, .004)])
    early = rng.choice([0, 0, 1, 2])    # start() before, during or after feeding begins
    seeds = [rng.random() for _ in range(nclients + 1)]
    tickets = iter(range(n))
    stop_early = not bridge and early == 0 and rng.random() < .5
    what += ', stop() right after feeding' if stop_early else ''
    tlock = threading.Lock()

    def feeder():
        r = random_from(seeds[-1])
        try:
            for i, (d, m) in enumerate(trains):
                if slow_feed and r.random() < .7:
                    time.sleep(r.random() * slow_feed)
                a = time.time()
                times[i] = (a, float('inf'))
                if m is None and r.random() < .5:
                    st.feed(d)
                else:
                    st.feed(d, m)
                times[i] = (a, time.time())
                S.fed_one()
            if stop_early:
                st.stop()       # has to wait for the queued trains to be requested
                S.progress()
        except Exception as e:
            S.errors.append(('feed', e))
            S.stop.set()

    def client(c):
        r = random_from(seeds[c])
        cl, life = None, 0
        try:
            if r.random() < .4:
                time.sleep(r.random() * .02)
            while True:
                with tlock:
                    if next(tickets, None) is None:
                        return
                if cl is None or life <= 0:
                    if cl:
                        cl.close()
                    cl, life = net.Client(port, S, 'client %d' % c), r.choice([1, 2, 5, 1000])
                    ctx_clients.append(1)
                life -= 1
                if not cl.next():
                    return
                if slow_get and r.random() < .7:
                    time.sleep(r.random() * slow_get)
        except Exception as e:
            S.errors.append(('client', e))
        finally:
            if cl:
                cl.close()

    ctx_clients = []
    ft = threading.Thread(target=feeder, daemon=True)
    if early == 0:
        st.start()
    ft.start()
    if early:
        # without a client, only the queue can take trains
        t0 = time.time()
        while S.fed < min(n, maxlen) and not S.errors and time.time() - t0 < net.STALL:
            time.sleep(.002)
        if not ctx.check(S.fed >= min(n, maxlen) or S.errors, 'feed-blocked', '%s: only %d trains could be fed before one is requested' % (what, S.fed)):
            stuck = True
            raise Stop
        if n > maxlen:
            time.sleep(.01)
            ctx.count('full_queue')
            ctx.check(S.fed <= maxlen, 'feed-not-held', '%s: %d trains were accepted though none was requested' % (what, S.fed))
        st.start()
    if bridge:
        out = os.path.join(ctx.dir('kb'), 'out.pickle')
        with S.lock:
            S.requests = n
        p = subprocess.run([sys.executable, '-c', BRIDGE, str(port), str(n), out, str(net.STALL)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        res = pickle.load(open(out, 'rb')) if os.path.exists(out) else []
        if not ctx.check(len(res) == n, 'bridge-client', '%s: the karabo_bridge client got %d of %d trains: %s' % (what, len(res), n, p.stdout.decode()[-500:])):
            stuck = True
            raise Stop
        ctx.count('bridge_client')
        for i, (d, m) in enumerate(res):
            d = {s: {k: dec(v) for k, v in x.items()} for s, x in d.items()}
            check_content(ctx, version, dummy, want[i][0], want[i][1], None, '%s: train #%d in karabo_bridge' % (what, i), decoded=(d, m), when=times[i])
        ctx.count('delivered', n)
    else:
        cs = [threading.Thread(target=client, args=(c,), daemon=True) for c in range(nclients)]
        for c in cs:
            c.start()
        for c in cs:
            c.join()
    if S.errors:
        S.stop.set()
        raise S.errors[0][1]
    ft.join(net.STALL)
    if not bridge:
        check_log(ctx, S, n, version, dummy, want, what, maxlen, nclients, ctx_clients, times)
        ctx.check(not ft.is_alive(), 'stop-hangs' if stop_early else 'feed-blocked', '%s: the feeding thread did not finish' % what)
        if len(S.log) != n or ft.is_alive():
            stuck = True
            raise Stop
    for i, ((d, m), (d0, m0)) in enumerate(zip(trains, want)):
        ctx.check(m == m0 and {s: (list(v), v.get('metadata')) for s, v in d.items()} == {s: (list(v), v.get('metadata')) for s, v in d0.items()},
                  'caller-data-changed', '%s: after feeding train #%d the metadata passed are %r instead of %r' % (what, i, (m, {s: v.get('metadata') for s, v in d.items()}), m0))
    ctx.seen(tuple(sorted(set(seen))), version)
    if stop_early:
        ctx.count('stopped_with_queue')
    # the end: sometimes with a request pending
    extra = None
    if rng.random() < .3 and not stop_early:
        extra = net.Client(port, net.Session(), 'late')
        extra.s.send(b'next')
        time.sleep(rng.random() * .02)
    t = threading.Thread(target=st.stop, daemon=True)
    t.start()
    t.join(net.STALL)
    if not ctx.check(not t.is_alive(), 'stop-hangs', '%s: stop() did not return%s' % (what, ' with a request pending' if extra else '')):
        stuck = True
        raise Stop
    if extra:
        ctx.check(not extra.s.poll(20), 'extra-message', '%s: a client got a message after all trains were delivered' % what)
        extra.close()
        ctx.count('pending_request_at_stop')
    ctx.count('stopped')


def check_log(ctx, S, n, version, dummy, want, what, maxlen, nclients, made, times):
    ctx.count('clients', len(made))
    index = index_of(version)
    got = {}
    log = []
    for e in S.log:
        try:
            i = index(e[3])
        except Exception as x:
            ctx.check(False, 'malformed', '%s: %r' % (what, x))
            continue
        log.append(e)
        got.setdefault(i, []).append(e)
        ctx.count('delivered')
    dup = {i: [e[2] for e in v] for i, v in got.items() if len(v) > 1}
    ctx.check(not dup, 'duplicated', '%s: delivered more than once: %r' % (what, dup))
    miss = [i for i in range(n) if i not in got]
    kind = 'no-progress' if len(S.log) < n else 'lost'
    ctx.check(not miss, kind, '%s: not delivered: %r after %d requests, %d replies, %d fed' % (what, miss[:20], S.requests, len(S.log), S.fed))
    bad = net.fifo_errors(log, index)
    ctx.check(not bad, 'order', '%s: %r' % (what, bad[:3]))
    ctx.check(S.backlog <= maxlen, 'feed-not-held', '%s: %d more trains were accepted than requested' % (what, S.backlog))
    for i, es in got.items():
        if i < len(want):
            check_content(ctx, version, dummy, want[i][0], want[i][1], es[0][3], '%s: train #%d' % (what, i), when=times[i])
    if nclients > 1:
        ctx.seen('order', tuple(e[2] for e in S.log))


def random_from(x):
    import random
    return random.Random(x)
