"""C24: CrystFEL geometry files round trip without moving pixels."""
import os, re
import numpy as np
from ..util import *
from .. import geo

ID = 'C24'
RULE = ("random layouts (axis aligned, turned, tilted with tiny, zero and negative components, far from the origin) of the three detectors; "
        "hand-written CrystFEL files loaded, every geometry written with random options, parsed with cfelpyutils and loaded again; panel positions, "
        "slabs, dimensions, paths, beam parameters and rigid groups compared; distinct by detector, constructor, dims and options")
ASSUME = ["where clen or adu_per_ev is not given, the file needs them added before it can be loaded (as its header says)",
          "CrystFEL: corner_x/y and fs/ss are in units of pixels (1/res), coffset in metres"]
MINIMUM = {'written': 40, 'panels': 3000, 'hand_written': 20, 'rejected': 5, 'tiny': 5}
cases = std_cases({'quick': 128, 'thorough': 2400})


def run_case(case, ctx):
    from cfelpyutils.crystfel_utils import load_crystfel_geometry
    seed, i = case
    rng = rng_for(ID, seed, i)
    nprng = np.random.default_rng(rng.getrandbits(64))
    det = ['AGIPD', 'LPD', 'DSSC'][i % 3]
    kind = rng.choice(geo.KINDS + ['tilted', 'tiny', 'tiny'])
    cls = geo.cls_for(det)
    n = geo.TILES[det]
    if kind == 'tiny':
        L = geo.random_layout(rng, det, 'snap', nprng)
        for _ in range(30):
            m, t = rng.randrange(16), rng.randrange(n)
            v = rng.choice([L.ss, L.fs])
            v[m, t, rng.choice([0, 1, 2])] += rng.choice([1, -1]) * 10 ** rng.uniform(-12, -3) * geo.PX[det]
            if rng.random() < .3:
                L.corner[m, t, rng.randrange(3)] = rng.choice([1, -1]) * 10 ** rng.uniform(-14, -5)
            if rng.random() < .1:
                L.corner[m, t, rng.randrange(3)] = rng.choice([0., -0., 12.5, -3000.])
        path = os.path.join(ctx.dir('g'), 'x.geom')
        geo.write_geom(path, L, rng, rng.choice(['plain', 'short', 'res', 'panelres']))
        geom, desc = cls.from_crystfel_geom(path), ('crystfel', 'tiny')
        ctx.count('tiny')
    else:
        geom, L, desc = geo.make_geometry(rng, ctx, det, kind)
    what = '%s %s' % (det, desc)
    if desc[0] == 'crystfel':
        ctx.count('hand_written')
    ref = L.positions()
    tol = 1e-9
    p = geom.get_pixel_positions(centre=False)
    err = np.abs(p - ref).max()
    if not ctx.check(err <= tol, 'loaded-misplaced', '%s: pixels up to %g m from where the file or arguments put them' % (what, err)):
        return

    # -- Write it ------------------------------------------------------------
    for rep in range(rng.choice([1, 1, 2])):
        dims = rng.choice([None, ('frame', 'modno', 'ss', 'fs'), ('frame', 'ss', 'fs'), ('frame', 'modno', 0, 'ss', 'fs'),
                           ('frame', 'modno', 'fs', 'ss'), ('modno', 'frame', 'ss', 'fs'), ('ss', 'fs', 'frame'), (3, 'frame', 'modno', 'ss', 'fs')])
        kw = {}
        if dims is not None:
            kw['dims'] = dims
        else:
            dims = ('frame', 'modno', 'ss', 'fs')
        if rng.random() < .6:
            kw['data_path'] = rng.choice(['/entry/data', '/a/b_c/d-e/data', '/INSTRUMENT/X_Y/DET/image/data'])
        if rng.random() < .5:
            kw['mask_path'] = rng.choice(['/entry/mask', '/m'])
        given = {}
        if rng.random() < .7:
            kw['adu_per_ev'] = rng.choice([0.0075, 1, 1e-5, 3.25])
        if rng.random() < .7:
            kw['clen'] = rng.choice([0.2, 1, 0.119, 5.5, 1e-3])
        if rng.random() < .6:
            kw['photon_energy'] = rng.choice([9000, 9e3, 12345.678, 1e4])
        path = os.path.join(ctx.dir('w'), rng.choice(['out.geom', 'geometry file.geom']))
        if rng.random() < .3:
            open(path, 'w').write('old content\n' * 10000)     # is replaced
        geom.write_crystfel_geom(path, **kw)
        ctx.count('written')
        text = open(path).read()
        pe = re.findall(r'^photon_energy *= *([^;\n]*)', text, re.M)
        ctx.check([float(x) for x in pe] == ([kw['photon_energy']] if 'photon_energy' in kw else []), 'photon-energy', '%s: photon_energy %s in the file' % (kw, pe))
        add = ''
        if 'clen' not in kw:
            add += 'clen = 0.5\n'
        if 'adu_per_ev' not in kw:
            add += 'adu_per_eV = 0.01\n'
        if add:
            ctx.check(not re.search(r'^clen *=', text, re.M) or 'clen' in kw, 'clen-invented', 'a camera length was made up')
            path = os.path.join(os.path.dirname(path), 'edited.geom')
            open(path, 'w').write(add + text)
        what2 = '%s written with %s' % (what, kw)
        try:
            gd = load_crystfel_geometry(path)
        except Exception as e:
            ctx.check(False, 'unreadable', '%s: CrystFEL file can not be parsed: %s %s' % (what2, type(e).__name__, e))
            return
        panels(ctx, gd, L, dims, kw, what2)
        try:
            back = cls.from_crystfel_geom(path)
        except Exception as e:
            ctx.check(False, 'unreadable', '%s: written file can not be loaded: %s %s' % (what2, type(e).__name__, e))
            return
        q = back.get_pixel_positions(centre=False)
        err = np.abs(q - ref).max()
        if not ctx.check(err <= tol, 'round-trip', '%s: pixels moved by up to %g m' % (what2, err)):
            return
        # nothing but the last digits may be lost: small angles matter after refinement
        far = np.abs(q - p) / (1e-13 + 1e-14 * np.abs(p))
        if not ctx.check(far.max() <= 1, 'round-trip-digits', '%s: pixels moved by up to %g m' % (what2, np.abs(q - p).max())):
            return
        ctx.check(np.array_equal(geom.get_pixel_positions(centre=False), p), 'geometry-changed', 'writing changed the geometry')
        ctx.seen(det, desc[:2], dims, tuple(sorted(kw)))
        geom = back
        p = q
    if rng.random() < .4:
        ctx.count('rejected')
        try:
            geom.write_crystfel_geom(os.path.join(ctx.dir('w'), 'x.geom'), dims=('modno', 'ss', 'fs'))
        except ValueError:
            pass
        else:
            ctx.check(False, 'no-frame', 'dims without frame accepted')


def panels(ctx, gd, L, dims, kw, what):
    det = L.det
    n = geo.TILES[det]
    px = geo.PX[det]
    h, w = geo.TSHAPE[det]
    H, W = geo.MSHAPE[det]
    P = gd['panels']
    if not ctx.check(set(P) == {'p%da%d' % (m, t) for m in range(16) for t in range(n)}, 'panel-names', '%s: panels %s' % (what, sorted(P)[:5])):
        return
    dmax = 0.
    for m in range(16):
        for t in range(n):
            d = P['p%da%d' % (m, t)]
            ctx.count('panels')
            a, b = geo.tile_origin(det, t)
            if 'modno' not in dims:
                a += m * H
            slab = (d['min_ss'], d['max_ss'], d['min_fs'], d['max_fs'])
            ctx.check(slab == (a, a + h - 1, b, b + w - 1), 'panel-slab', '%s: p%da%d is %s, not %s' % (what, m, t, slab, (a, a + h - 1, b, b + w - 1)))
            want = [{'frame': '%', 'modno': m}.get(x, x) for x in dims]
            ctx.check(d['dim_structure'] == want, 'panel-dims', '%s: p%da%d has dimensions %s, not %s' % (what, m, t, d['dim_structure'], want))
            ctx.check(d['data'] == kw.get('data_path', '/entry_1/instrument_1/detector_1/data') and d['mask'] == kw.get('mask_path'), 'panel-paths',
                      '%s: data %s mask %s' % (what, d['data'], d['mask']))
            ctx.check(abs(d['res'] * px - 1) < 1e-9, 'panel-res', '%s: %s pixels per metre' % (what, d['res']))
            ctx.check(d['clen'] == kw.get('clen', .5) and d['adu_per_eV'] == kw.get('adu_per_ev', .01), 'panel-values', '%s: clen %s adu_per_eV %s' % (
                what, d['clen'], d['adu_per_eV']))
            r = 1 / d['res']
            c = np.array([d['cnx'] * r, d['cny'] * r, d['coffset']])
            f = np.array([d['fsx'], d['fsy'], d['fsz']]) * r
            s = np.array([d['ssx'], d['ssy'], d['ssz']]) * r
            ok = np.abs(c - L.corner[m, t]).max() <= 1e-9 and np.abs(f - L.fs[m, t]).max() <= 1e-12 and np.abs(s - L.ss[m, t]).max() <= 1e-12
            if not ctx.check(ok, 'panel-position', '%s: p%da%d corner %s fs %s ss %s, not %s %s %s' % (
                    what, m, t, c, f, s, L.corner[m, t], L.fs[m, t], L.ss[m, t])):
                return
    g = gd['rigid_groups']
    for m in range(16):
        ctx.check(g.get('p%d' % m) == ['p%da%d' % (m, t) for t in range(n)], 'rigid-group', '%s: group p%d is %s' % (what, m, g.get('p%d' % m)))
    for q in range(4):
        ctx.check(g.get('q%d' % q) == ['p%da%d' % (m, t) for m in range(4 * q, 4 * q + 4) for t in range(n)], 'rigid-group', '%s: group q%d' % (what, q))
    col = gd['rigid_group_collections']
    ctx.check(col.get('quadrants') == ['q%d' % q for q in range(4)] and col.get('asics') == ['p%d' % m for m in range(16)], 'rigid-collections', '%s: %s' % (what, col))
