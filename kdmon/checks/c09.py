"""C09: write_virtual() then read back through every access method."""
import hashlib, os
import numpy as np
from ..util import *
from .c08 import build, choose, read_back, open_fds

ID = 'C09'
RULE = ("random runs (opened by absolute or relative path) x source/key/train selections written as virtual datasets, "
        "reopened from another working directory and compared by every access method; some written again from the "
        "virtual file; distinct by the selected pattern of trains and counts per field")
ASSUME = ["the original files stay in place", "fields without any data in the selection may be left out"]
cases = std_cases({'quick': 420, 'thorough': 7000})
MINIMUM = {'files': 220, 'fields': 800, 'relative': 60, 'chained': 40, 'partial_control': 50}


def snapshot(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        st = os.stat(p)
        with open(p, 'rb') as f:
            out[n] = (st.st_size, st.st_mtime_ns, st.st_mode, hashlib.sha1(f.read()).hexdigest())
    return out


def run_case(case, ctx):
    from karabo_data import H5File, RunDirectory
    rng = rng_for(ID, *case)
    old = os.getcwd()
    rel = rng.random() < .3
    try:
        r, d = make_run(rng, ctx, max_trains=8, ctrl_holes=rng.random() < .15, big=rng.random() < .1)
        d2 = same_names(rng, r, d, ctx) if not rel and rng.random() < .2 else None
        ctx.sample(r.describe())
        if rel:
            ctx.count('relative')
            os.chdir(os.path.dirname(d))
            if rng.random() < .5:
                dc = RunDirectory(rng.choice([os.path.basename(d), './' + os.path.basename(d)]))
            else:
                fs = [H5File(os.path.join(os.path.basename(d), f.name)) for f in r.files]
                dc = fs[0].union(*fs[1:])
        else:
            dc = open_run(r, (d, d2) if d2 else d, rng)
        before = snapshot(d)
        sub, view = choose(rng, r, dc)
        if not view.sel:
            return
        outdir = ctx.dir('out')
        out = os.path.join(outdir, 'virt.h5')
        arg = out
        if rng.random() < .2:
            with open(out, 'wb') as f:
                f.write(os.urandom(5000))
        if rng.random() < .2:
            os.chdir(outdir)
            arg = 'virt.h5'
        sub.write_virtual(arg)
        ctx.count('files')
        os.chdir(rng.choice(['/', outdir, ctx.tmp]))
        ctx.check(open_fds(out) == 0, 'still-open', 'file still open for writing after write_virtual() returned')
        what = 'write_virtual of %r trains %r' % ({s: sorted(k) for s, k in view.sel.items()}, view.trains)
        try:
            res = H5File(out)
        except Exception as e:
            ctx.violation('unreadable', '%s: %r' % (what, e), run=r.describe())
            return
        read_back(rng, r, view, res, ctx, what, virtual=True)
        if rng.random() < .35 and res.all_sources:
            ctx.count('chained')
            trains = random_subset(rng, view.trains)
            sel = {s: set(res.keys_for_source(s)) for s in res.all_sources}
            sub2 = select_trains(rng, res, trains)
            if sub2.all_sources:
                out2 = os.path.join(ctx.tmp, 'virt2.h5')
                sub2.write_virtual(out2)
                res2 = H5File(out2)
                read_back(rng, r, model.View(r, trains, sel), res2, ctx, what + ' again', virtual=True)
                res2.files[0].close()
        res.files[0].close()
        after = snapshot(d)
        ctx.check(after == before, 'originals', 'original files changed: %r' % [n for n in after if after.get(n) != before.get(n)])
    finally:
        os.chdir(old)
