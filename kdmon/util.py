"""Helpers shared by the checks."""
import contextlib, io, os, random
import numpy as np
from . import gen, model
from .core import Skip, Stop, h64


def rng_for(pid, *case):
    return random.Random(h64(pid, *case))


def std_cases(n):
    """cases() returning (seed, i) tuples; n = {'quick': N, 'thorough': M}"""
    def cases(tier, seed):
        return [(seed, i) for i in range(n[tier])]
    return cases


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out, contextlib.redirect_stderr(io.StringIO()) as err:
        yield out, err


def make_run(rng, ctx, **kw):
    r = gen.gen_run(rng, **kw)
    if not r.sources:
        raise Skip
    d = ctx.dir('run')
    r.write(d)
    return r, d


def second_dir(rng, ctx, d):
    """Another directory, sometimes of the same name, as for the raw & processed data of a run"""
    d2 = ctx.dir('run') if rng.random() < .5 else os.path.join(ctx.dir('x'), os.path.basename(d))
    os.makedirs(d2, exist_ok=True)
    return d2


def same_names(rng, r, d, ctx):
    """Move about half of the files to another directory, where they get the names of files that stay.

    Returns the second directory, or None.
    """
    n = len(r.files)
    if n < 2:
        return None
    d2 = second_dir(rng, ctx, d)
    idx = list(range(n))
    rng.shuffle(idx)
    keep, move = idx[:(n + 1) // 2], idx[(n + 1) // 2:]
    ren = {}
    for i, j in zip(move, keep):
        ren[i] = r.files[j].name
    for i in move:
        os.rename(os.path.join(d, r.files[i].name), os.path.join(d2, ren[i]))
        r.files[i].name = ren[i]
    return d2


def open_run(r, d, rng, how=None):
    """Open through one of the public ways"""
    from karabo_data import RunDirectory, H5File
    if isinstance(d, tuple):        # several directories
        runs = [RunDirectory(x) for x in d]
        rng.shuffle(runs)
        return runs[0].union(*runs[1:])
    how = how or rng.choice(['dir', 'dir', 'dir', 'files', 'reopen'])
    if how == 'files':
        fs = [H5File(os.path.join(d, f.name)) for f in r.files]
        rng.shuffle(fs)
        return fs[0].union(*fs[1:]) if len(fs) > 1 else fs[0]
    if how == 'reopen':
        RunDirectory(d)
    return RunDirectory(d)


def random_subset(rng, xs, p=None):
    if not xs:
        return []
    mode = rng.choice(['all', 'one', 'window', 'random', 'drop'])
    if mode == 'all':
        return list(xs)
    if mode == 'one':
        return [rng.choice(xs)]
    if mode == 'window':
        i = rng.randrange(len(xs))
        return xs[i:rng.randint(i + 1, len(xs))]
    if mode == 'drop':
        x = rng.choice(xs)
        return [y for y in xs if y != x] or list(xs)
    return [x for x in xs if rng.random() < .5] or [rng.choice(xs)]


def select_trains(rng, dc, trains):
    """Select exactly these trains; returns None if the API can't express it"""
    from karabo_data import by_id, by_index
    if list(trains) == [int(t) for t in dc.train_ids] and rng.random() < .6:
        return dc
    how = rng.choice(['list', 'nparr', 'index'])
    if how == 'list':
        xs = [int(t) for t in trains]
        rng.shuffle(xs)
        return dc.select_trains(by_id[xs])
    if how == 'nparr':
        return dc.select_trains(by_id[np.array(trains, dtype='u8')])
    all_ = [int(t) for t in dc.train_ids]
    return dc.select_trains(by_index[[all_.index(t) for t in trains]])


def fields(run, kind=None):
    return [(s, k) for s, v in sorted(run.sources.items()) for k in sorted(v.keys)
            if kind is None or v.kind == kind]


def source_visible(run, source, trains):
    """Some file of the source overlaps the trains (so the source stays known)"""
    ts = set(trains)
    return any(source in f.sources and ts & set(f.trains) for f in run.files)


def shape_class(run, source, key, trains):
    """A key describing the situation an access met, for counting distinct ones"""
    s = run.sources[source]
    g = s.group_of(key)
    nf = sum(1 for f in run.files if source in f.sources)
    pat = []
    for f in run.files:
        if source in f.sources:
            pat.append(''.join(str(min(s.counts[g].get(t, 0), 3)) if t in trains else '.' for t in f.trains))
    return (s.kind, tuple(pat), s.keys[key].dtype, s.keys[key].shape)
