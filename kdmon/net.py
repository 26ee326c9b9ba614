"""Karabo bridge clients and message decoding for C18 and C19."""
import os, socket, threading, time
import msgpack
import numpy as np
import zmq

STALL = 40      # seconds without any progress taken as being stuck
SLOT = 500       # ports a process has to itself
_slot = {}


def _claim():
    """Take a range of ports no other process of the checks uses"""
    pid = os.getpid()
    if pid not in _slot:
        for k in range(40):
            n = (pid + k) % 40
            lock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            try:
                lock.bind('\0kdmon-ports-%d' % n)
            except OSError:
                lock.close()
                continue
            _slot.clear()
            _slot[pid] = [11000 + n * SLOT, 0, lock]
            break
        else:
            raise RuntimeError('no free range of ports')
    return _slot[pid]


def free_port():
    """An unused port below the ephemeral range, not handed out lately"""
    slot = _claim()
    for _ in range(SLOT):
        p = slot[0] + slot[1] % SLOT
        slot[1] += 1
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(('', p))
        except OSError:
            continue
        finally:
            s.close()
        return p
    raise RuntimeError('no free port')


def decode(parts, version):
    """Returns (data, metadata) or raises ValueError for a malformed message"""
    data, meta = {}, {}
    if version == '1.0':
        import msgpack_numpy
        if len(parts) != 1:
            raise ValueError('message of %d parts' % len(parts))
        data = msgpack.unpackb(parts[0], raw=False, object_hook=msgpack_numpy.decode, strict_map_key=False, max_bin_len=0x7fffffff)
        return data, {s: v.get('metadata', {}) for s, v in data.items()}
    if len(parts) < 2 or len(parts) % 2:
        raise ValueError('message of %d parts' % len(parts))
    for h, p in zip(parts[::2], parts[1::2]):
        h = msgpack.unpackb(h, raw=False, strict_map_key=False)
        src = h['source']
        if h['content'] == 'msgpack':
            if src in data:
                raise ValueError('source %s twice' % src)
            data[src] = msgpack.unpackb(p, raw=False, strict_map_key=False)
            meta[src] = h.get('metadata')
        elif h['content'] == 'array':
            if h['path'] in data[src]:
                raise ValueError('%s %s twice' % (src, h['path']))
            data[src][h['path']] = np.frombuffer(p, dtype=h['dtype']).reshape(h['shape'])
        else:
            raise ValueError('content %r' % h['content'])
    return data, meta


def same_value(want, got, version):
    """Does a received value stand for the one which was fed?"""
    if isinstance(want, np.ndarray):
        if want.dtype.hasobject:
            return (got.tolist() if isinstance(got, np.ndarray) else got) == want.tolist()
        return (isinstance(got, np.ndarray) and got.dtype == want.dtype and got.shape == want.shape
                and np.ascontiguousarray(got).tobytes() == np.ascontiguousarray(want).tobytes())
    if isinstance(want, np.generic) and not isinstance(want, (bytes, str)):
        want = want.item()
    if isinstance(got, np.generic):
        if version != '1.0':
            return False
        got = got.item()
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(want) == len(got) and all(same_value(a, b, version) for a, b in zip(want, got))
    if isinstance(want, dict):
        return isinstance(got, dict) and sorted(map(str, want)) == sorted(map(str, got)) and all(same_value(v, got[k], version) for k, v in want.items())
    if isinstance(want, bool) or isinstance(got, bool):
        return isinstance(want, bool) and isinstance(got, bool) and want == got
    if isinstance(want, float) and isinstance(got, float):
        return want == got or (want != want and got != got)
    return type(want) in (int, float) and type(got) in (int, float) and want == got and isinstance(want, float) == isinstance(got, float) \
        or (not isinstance(want, (int, float)) and type(got) == (bytes if isinstance(want, (bytes, bytearray)) else str if isinstance(want, str) else type(want)) and want == got)


def differences(want, got, version, ignore=()):
    """List of differences between fed and received data"""
    out = []
    if sorted(want) != sorted(got):
        return ['sources %r instead of %r' % (sorted(got), sorted(want))]
    for s, props in want.items():
        a, b = set(props) - set(ignore), set(got[s]) - set(ignore)
        if a != b:
            out.append('%s: keys missing %r, extra %r' % (s, sorted(a - b), sorted(b - a)))
            continue
        for k in a:
            if not same_value(props[k], got[s][k], version):
                out.append('%s %s: %s instead of %s' % (s, k, brief(got[s][k]), brief(props[k])))
    return out


def brief(x):
    if isinstance(x, np.ndarray):
        return 'array %s %r %s' % (x.dtype, x.shape, repr(x.ravel()[:4])[:80])
    return '%s %s' % (type(x).__name__, repr(x)[:80])


class Clock:
    def __init__(self):
        self.lock, self.n = threading.Lock(), 0

    def tick(self):
        with self.lock:
            self.n += 1
            return self.n


class Session:
    """What feeder and clients of one stream did, on one logical clock"""

    def __init__(self):
        self.lock = threading.Lock()
        self.clock = Clock()
        self.requests = 0       # counted before sending a request
        self.fed = 0            # counted after feed() returned
        self.backlog = 0        # highest of fed - requests
        self.log = []           # (t_request, t_reply, client, parts)
        self.last = time.time()
        self.stop = threading.Event()
        self.errors = []

    def progress(self):
        self.last = time.time()

    def request(self):
        with self.lock:
            self.requests += 1
        return self.clock.tick()

    def fed_one(self):
        with self.lock:
            self.fed += 1
            self.backlog = max(self.backlog, self.fed - self.requests)
        self.progress()

    def reply(self, t0, who, parts):
        with self.lock:
            self.log.append((t0, self.clock.tick(), who, parts))
        self.progress()

    def stalled(self):
        return time.time() - self.last > STALL


class Client:
    """REQ client on its own context"""

    def __init__(self, port, session, who):
        self.ctx = zmq.Context()
        self.s = self.ctx.socket(zmq.REQ)
        self.s.setsockopt(zmq.LINGER, 0)
        self.s.connect('tcp://127.0.0.1:%d' % port)
        self.session, self.who = session, who

    def next(self):
        """False if the session ended or got stuck first"""
        t0 = self.session.request()
        self.s.send(b'next')
        return self.wait(t0)

    def wait(self, t0):
        while not self.s.poll(50):
            if self.session.stop.is_set() or self.session.stalled():
                return False
        parts = self.s.recv_multipart()
        self.session.reply(t0, self.who, parts)
        return True

    def close(self):
        self.s.close(0)
        self.ctx.term()


def fifo_errors(log, index):
    """log entries with index(parts) -> position in the fed order.  A train that was
    received before another was even requested has to precede it."""
    ev = sorted((t0, t1, index(p), who) for t0, t1, who, p in log)
    out = []
    byrep = sorted(ev, key=lambda e: e[1])
    j, hi, hiev = 0, -1, None
    for t0, t1, i, who in ev:
        while j < len(byrep) and byrep[j][1] < t0:
            if byrep[j][2] > hi:
                hi, hiev = byrep[j][2], byrep[j]
            j += 1
        if hi > i:
            out.append('train #%d was requested by %s after train #%d had been received by %s' % (i, who, hi, hiev[3]))
    return out
