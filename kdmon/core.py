"""Runner shared by all checks.

A check is a module ``kdmon.checks.cXX`` with

* ``ID``, ``LEVEL``, ``RULE``, ``ASSUME``
* ``cases(tier, seed)`` -> list of picklable case parameters (fixed count)
* ``run_case(params, ctx)`` - drives the real code and reports through ctx

``ctx.violation(...)`` records a violation, ``ctx.count(name)`` a counter of
observed events, ``ctx.seen(x)`` a distinct non-trivial situation.

Verdicts: exit 0 held on what was explored, exit 1 with VIOLATION lines,
exit 2 inconclusive (the monitor crashed, ran out of time or saw too little).
"""
import collections, hashlib, json, os, random, shutil, signal, sys, tempfile, zlib
import time, traceback, pickle, multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KDMON_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(EVID, 'replay')


class Skip(Exception):
    """Raised by a case which turns out not to be applicable."""


class Stop(Exception):
    """Raised after a violation to abandon the case."""


class Hang(BaseException):
    """A single case ran far beyond the time any case needs."""


CASE_LIMIT = 240


def _on_alarm(*_):
    raise Hang('case took more than %d s' % CASE_LIMIT)


def blame(e):
    """Who is responsible for exception e: 'code', 'result' or 'check'

    'code': raised inside the code under test; 'result': the check could not
    make sense of what the code returned (wrong type, missing entry, ...);
    'check': something else, e.g. a name the check needs no longer exists.
    """
    frames = traceback.extract_tb(e.__traceback__)
    inside = [f for f in frames if f.filename.startswith(os.path.join(REPO, 'karabo_data') + os.sep)]
    if isinstance(e, Hang):
        return 'code' if inside else 'check', inside
    if not isinstance(e, Exception) or isinstance(e, (MemoryError, ImportError)):
        return 'check', inside
    if inside:
        return 'code', inside
    if isinstance(e, AttributeError):
        obj = getattr(e, 'obj', None)
        mod = obj.__name__ if hasattr(obj, '__file__') else getattr(
            obj if isinstance(obj, type) else type(obj), '__module__', '')
        if str(mod).startswith(('karabo_data', 'kdmon')):
            return 'check', inside
        return 'result', inside
    if isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError)):
        return 'result', inside
    return 'check', inside


def h64(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:8], 'big')


def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    try:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 1 << 30:
            base = '/tmp'
    except OSError:
        base = '/tmp'
    return base


def load_known(pid):
    """Entries 'known: property=<id> key=<mechanism> <text>' of KNOWN-FINDINGS.txt"""
    out = {}
    path = os.path.join(VERIF, 'KNOWN-FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                parts = line.split(None, 3)
                d = dict(p.split('=', 1) for p in parts[1:3])
                if d.get('property') == pid:
                    out[d['key']] = parts[3] if len(parts) > 3 else ''
    return out


class Ctx:
    def __init__(self, pid, tier, seed, tmp):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tmp
        self.counters = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.knowns = collections.Counter()
        self.known = load_known(pid)
        self.errors = []
        self.case = None
        self.serial = 0

    # -- observation -------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, *x):
        self.distinct.add(h64(*x))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violation(self, kind, detail, **info):
        """kind: short mechanism key; detail: human readable."""
        if kind in self.known:
            self.knowns[kind] += 1
            return
        self.violations.append(dict(kind=kind, detail=str(detail)[:4000],
                                    info={k: repr(v)[:1500] for k, v in info.items()},
                                    case=self.case))

    def check(self, ok, kind, detail='', **info):
        self.counters['checks'] += 1
        if not ok:
            self.violation(kind, detail, **info)
        return ok

    def dir(self, name='d'):
        self.serial += 1
        n = '%s%d' % (name, self.serial)
        if name in ODD_DIRS:      # users' folders have all kinds of names
            odd = zlib.crc32(repr((self.case, n)).encode()) % (4 * len(ODD))
            n = ODD[odd] % n if odd < len(ODD) else n
        p = os.path.join(self.tmp, n)
        os.makedirs(p)
        return p


ODD_DIRS = ('run', 'p', 'out', 'o', 'w', 'g')
ODD = ['%s [old]', '%s[1-9]', '%s*', '%s?x', 'my %s', '%s.h5', '%sé', "it's %s", '{%s}', '~%s', '$HOME%s', '-%s', '%s,b', '#%s', '%s:0']


def calm_h5py():
    """Keep the garbage collector out of h5py's listing of open objects

    h5py 3.2.1 takes the ids of a file's open objects from HDF5 and wraps them
    one by one; when Python happens to collect garbage which held one of them in
    between, File.close() fails ("Unspecified error in H5Iget_type").  This is
    a flaw of that library which depends on nothing but the moment the
    collector runs, so the monitors take it out of the picture.
    """
    import gc, h5py.h5f
    orig = h5py.h5f.get_obj_ids
    if hasattr(orig, 'kdmon'):
        return

    def get_obj_ids(*args, **kwargs):
        on = gc.isenabled()
        gc.disable()
        try:
            return orig(*args, **kwargs)
        finally:
            if on:
                gc.enable()
    get_obj_ids.kdmon = True
    h5py.h5f.get_obj_ids = get_obj_ids


def _worker(modname, pid, tier, seed, cases, conn, tmp):
    import importlib, warnings, faulthandler
    faulthandler.enable()
    warnings.simplefilter('ignore')
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        signal.signal(signal.SIGALRM, _on_alarm)
    except ValueError:
        pass
    mod = importlib.import_module(modname)
    calm_h5py()
    ctx = Ctx(pid, tier, seed, tmp)
    ncase = 0
    for case in cases:
        ctx.case = case
        sub = os.path.join(tmp, 'c%d' % ncase)
        os.makedirs(sub, exist_ok=True)
        ctx.tmp = sub
        try:
            conn.send(('case', case))
            signal.alarm(CASE_LIMIT)
            mod.run_case(case, ctx)
            signal.alarm(0)
            ncase += 1
            ctx.count('cases')
        except Skip:
            ctx.count('skipped')
        except Stop:
            ctx.count('cases')
        except BaseException as e:
            signal.alarm(0)
            who, inside = blame(e)
            if who == 'code':
                # Code under test failed on input it has to accept
                ctx.count('cases')
                ctx.violation('exception-%s-%s' % (type(e).__name__, inside[-1].name),
                              'unexpected %s: %s' % (type(e).__name__, str(e)[:500]),
                              traceback=traceback.format_exc()[-1500:])
                continue
            if who == 'result':
                ctx.count('cases')
                ctx.violation('unusable-%s' % type(e).__name__,
                              'the result cannot be read back: %s: %s' % (type(e).__name__, str(e)[:500]),
                              traceback=traceback.format_exc()[-1500:])
                continue
            ctx.errors.append((case, traceback.format_exc()))
            if isinstance(e, (SystemExit, KeyboardInterrupt)) or len(ctx.errors) > 20:
                break
        finally:
            signal.alarm(0)
            shutil.rmtree(sub, ignore_errors=True)
        if len(ctx.violations) >= 5:
            break
    conn.send(('done', dict(counters=ctx.counters, distinct=ctx.distinct,
                            samples=ctx.samples, violations=ctx.violations,
                            knowns=ctx.knowns, errors=ctx.errors)))
    conn.close()


def run(mod, tier, seed, workers=None, only=None):
    t0 = time.time()
    pid = mod.ID
    sys.path.insert(0, VERIF)
    import karabo_data
    kd = os.path.dirname(os.path.abspath(karabo_data.__file__))
    if os.path.realpath(kd) != os.path.realpath(os.path.join(REPO, 'karabo_data')):
        print("INCONCLUSIVE: karabo_data imported from", kd)
        return 2
    # The quick tier runs the case list for three seeds derived from the given one
    seeds = [seed + 7919 * k for k in range(3 if tier == 'quick' else 1)]
    cases = [only] if only is not None else [c for s in seeds for c in mod.cases(tier, s)]
    nw = workers or getattr(mod, 'WORKERS', 8)
    nw = max(1, min(nw, len(cases)))
    limit = getattr(mod, 'LIMIT', {'quick': 600, 'thorough': 7200})[tier]
    root = tempfile.mkdtemp(prefix='kdmon-%s-' % pid, dir=scratch_root())
    os.chmod(root, 0o755)
    procs = []
    agg = dict(counters=collections.Counter(), distinct=set(), samples=[],
               violations=[], knowns=collections.Counter(), errors=[])
    incon = []
    mpx = mp.get_context('fork')
    shards = [cases[i::nw] for i in range(nw)]
    try:
        for i, sh in enumerate(shards):
            a, b = mpx.Pipe(duplex=False)
            tmp = os.path.join(root, 'w%d' % i)
            os.makedirs(tmp)
            p = mpx.Process(target=_worker, args=(mod.__name__, pid, tier, seed, sh, b, tmp))
            p.start()
            b.close()
            procs.append([p, a, None])
        live = list(procs)
        last = {id(x): time.time() for x in procs}
        from multiprocessing.connection import wait
        while live:
            ready = wait([x[1] for x in live], timeout=5)
            for x in list(live):
                if x[1] in ready:
                    try:
                        kind, val = x[1].recv()
                    except EOFError:
                        x[0].join(10)
                        incon.append("worker died with code %s during case %r" % (x[0].exitcode, x[2]))
                        agg['errors'].append((x[2], "worker died: %s" % x[0].exitcode))
                        live.remove(x)
                        continue
                    last[id(x)] = time.time()
                    if kind == 'case':
                        x[2] = val
                    else:
                        for k in ('counters', 'knowns'):
                            agg[k].update(val[k])
                        agg['distinct'] |= val['distinct']
                        for k in ('samples', 'violations', 'errors'):
                            agg[k].extend(val[k])
                        live.remove(x)
            if time.time() - t0 > limit:
                for x in live:
                    incon.append("time limit %ds reached in case %r" % (limit, x[2]))
                break
    finally:
        for x in procs:
            if x[0].is_alive():
                x[0].terminate()
        for x in procs:
            x[0].join(5)
            if x[0].is_alive():
                x[0].kill()
        shutil.rmtree(root, ignore_errors=True)
    return finish(mod, pid, tier, seed, agg, incon, t0, replaying=only is not None)


def finish(mod, pid, tier, seed, agg, incon, t0, replaying):
    os.makedirs(REPLAY, exist_ok=True)
    c = agg['counters']
    minimum = getattr(mod, 'MINIMUM', {})
    if not replaying:
        for name, need in minimum.items():
            if c[name] < need:
                incon.append("only %d events of %r observed (need %d)" % (c[name], name, need))
        if not agg['distinct']:
            incon.append("nothing non-trivial observed")
    known = load_known(pid)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=int(c['cases']), distinct_nontrivial=len(agg['distinct']),
                            rule=mod.RULE, samples=agg['samples'][:6] or ['none'],
                            checks=int(c['checks']),
                            observed={k: int(v) for k, v in sorted(c.items())},
                            known_findings={k: int(v) for k, v in agg['knowns'].items()}),
              assumptions=list(getattr(mod, 'ASSUME', [])),
              wall_s=round(time.time() - t0, 2), violations=len(agg['violations']))
    if not replaying:
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for k in sorted(known):
        if agg['knowns'][k] or getattr(mod, 'ALWAYS_REPORT_KNOWN', True):
            print("KNOWN-FINDING: property=%s %s (%s; seen %d times)" % (pid, known[k], k, agg['knowns'][k]))
    for e in agg['errors'][:5]:
        print("CHECK-ERROR in case %r:\n%s" % (e[0], e[1]))
    print("%s tier=%s seed=%d: %d cases, %d checks, %d distinct, %.1fs; %s" % (
        pid, tier, seed, c['cases'], c['checks'], len(agg['distinct']), time.time() - t0,
        ' '.join('%s=%d' % kv for kv in sorted(c.items()) if kv[0] not in ('cases', 'checks'))))
    if agg['violations']:
        seen = set()
        for v in agg['violations']:
            if v['kind'] in seen:
                continue
            seen.add(v['kind'])
            rp = os.path.join('evidence', 'replay', '%s-%016x.json' % (pid, h64(v['case'], v['kind'])))
            with open(os.path.join(VERIF, rp), 'w') as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, case=v['case'], kind=v['kind'],
                               detail=v['detail'], info=v['info']), f, indent=1, default=str)
            print("  violated [%s]: %s" % (v['kind'], v['detail']))
            for k, x in v['info'].items():
                print("      %s = %s" % (k, x[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if agg['errors']:
        incon.append("%d cases ended in an error of the check" % len(agg['errors']))
    if incon:
        for x in incon:
            print("INCONCLUSIVE:", x)
        return 2
    return 0


def shim_path():
    """Build the fault injection library if needed; returns its path"""
    import subprocess
    src = os.path.join(VERIF, 'native', 'shim.c')
    out = os.path.join(VERIF, 'build')
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, 'shim-%016x.so' % h64(open(src).read()))
    if not os.path.exists(so):
        tmp = '%s.%d' % (so, os.getpid())
        subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-o', tmp, src, '-ldl'])
        os.replace(tmp, so)
    return so


def main(argv):
    import importlib
    sys.path.insert(0, VERIF)
    pid = argv[0]
    mod = importlib.import_module('kdmon.checks.' + pid.lower())
    if getattr(mod, 'NEEDS_SHIM', False) and 'KDMON_SHIM' not in os.environ:
        so = shim_path()
        os.environ['KDMON_SHIM'] = so
        os.environ['LD_PRELOAD'] = so
        os.execv(sys.executable, [sys.executable] + (['-B'] if sys.dont_write_bytecode else []) + ['-m', 'kdmon'] + argv)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if len(argv) > 1 and argv[1] == '--replay':
        d = json.load(open(argv[2]))
        case = d['case']
        return run(mod, d['tier'], d['seed'], only=_tup(case))
    if len(argv) > 1 and argv[1] == '--case':
        return run(mod, tier, seed, only=eval(argv[2]))
    return run(mod, tier, seed)


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, list) else x
