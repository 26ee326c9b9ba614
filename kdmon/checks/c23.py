"""C23: geometry constructors place quadrants and modules where they are told."""
import os
import h5py, numpy as np
from ..util import *
from .. import geo

ID = 'C23'
RULE = ("random quadrant positions, units, gaps and calibration files (HDF5) for AGIPD, LPD, DSSC; all pixel positions against the documented "
        "arrangement, the same geometry in other units, single quadrants or modules shifted, and calibration files inverted; "
        "distinct by detector, constructor, arguments given")
ASSUME = ["gaps and quadrant positions are given in the same unit"]
MINIMUM = {'built': 150, 'units': 30, 'shifted': 30, 'h5': 24, 'inverted': 5, 'integer_positions': 10}
cases = std_cases({'quick': 96, 'thorough': 3000})


def build(rng, ctx, det, P, unit, explicit):
    """Build from parameters P (metres), all given in *unit*"""
    cls = geo.cls_for(det)
    if P['kind'] == 'quads':
        given = (P['quads'] / unit).tolist()
        form = rng.choice(['list', 'tuples', 'array'])
        given = np.array(given) if form == 'array' else [tuple(g) for g in given] if form == 'tuples' else given
        kw = {}
        if P['ag'] is not None:
            kw['asic_gap'] = P['ag'] / unit
        if P['pg'] is not None:
            kw['panel_gap'] = P['pg'] / unit
        if explicit:
            kw['unit'] = unit
        if det == 'AGIPD' and rng.random() < .3 and len(kw) == 3:
            return cls.from_quad_positions(given, kw['asic_gap'], kw['panel_gap'], kw['unit'])
        return cls.from_quad_positions(given, **kw)
    path = os.path.join(ctx.dir('g'), 'geo.h5')
    mod, tile, dt = P['mod'] / unit, P['tile'] / unit, ['f8', 'f8']
    for j in range(2):
        x = (mod, tile)[j]
        if np.abs(x - np.rint(x)).max() < 1e-6 and rng.random() < .7:
            # whole numbers, stored as such
            x[...] = np.rint(x)
            dt[j] = rng.choice(['i4', 'i8', 'f4', 'f8'] if np.abs(x).max() < 2 ** 24 else ['i4', 'i8'])
            ctx.count('integer_positions')
    geo.write_h5(path, det, mod, tile, dt)
    given = P['quads'] / unit
    given = given if rng.random() < .5 else [tuple(g) for g in given.tolist()]
    kw = {'unit': unit} if explicit else {}
    before = open(path, 'rb').read()
    g = cls.from_h5_file_and_quad_positions(path, given, **kw)
    ctx.check(open(path, 'rb').read() == before, 'file-changed', 'calibration file modified')
    return g


def layout(det, P):
    px = geo.PX[det]
    if P['kind'] == 'quads':
        d = (2, 29) if det == 'AGIPD' else (4, 4)
        ag = d[0] * px if P['ag'] is None else P['ag']
        pg = d[1] * px if P['pg'] is None else P['pg']
        return (geo.agipd_layout if det == 'AGIPD' else geo.lpd_layout)(P['quads'], ag, pg)
    return (geo.lpd_file_layout if det == 'LPD' else geo.dssc_file_layout)(P['mod'], P['tile'], P['quads'], 1.)


def run_case(case, ctx):
    seed, i = case
    rng = rng_for(ID, seed, i)
    nprng = np.random.default_rng(rng.getrandbits(64))
    det, kind = [('AGIPD', 'quads'), ('LPD', 'quads'), ('LPD', 'h5'), ('DSSC', 'h5')][i % 4]
    px = geo.PX[det]
    P = dict(kind=kind)
    if kind == 'quads':
        style = rng.choice(['normal', 'normal', 'wild', 'same'])
        if style == 'normal':
            P['quads'] = np.array(geo.quad_positions_px(rng, det)) * px
        elif style == 'wild':
            P['quads'] = nprng.uniform(-1, 1, (4, 2))
        else:
            P['quads'] = np.zeros((4, 2)) + rng.choice([0, .1])
        P['ag'] = rng.choice([None, 0., rng.uniform(0, 10) * px])
        P['pg'] = rng.choice([None, 0., rng.uniform(0, 40) * px])
        unit = rng.choice([None, px] + geo.UNITS)
        default = px if det == 'AGIPD' else 1e-3
    else:
        mod, tile, quads = geo.h5_params(rng, det, nprng)
        if rng.random() < .3:
            mod, tile, quads = (nprng.uniform(-200, 200, x.shape) for x in (mod, tile, quads))
        if rng.random() < .5:
            mod = np.rint(mod)
        if rng.random() < .5:
            tile = np.rint(tile)
        P.update(mod=mod * 1e-3, tile=tile * 1e-3, quads=quads * 1e-3)
        unit = rng.choice([None] + geo.UNITS)
        default = 1e-3
        ctx.count('h5')
    # a pixel count, exactly, when given in pixels
    geom = build(rng, ctx, det, P, unit or default, unit is not None)
    L = layout(det, P)
    ctx.count('built')
    what = '%s from %s, unit=%s, gaps %s/%s' % (det, kind, unit, P.get('ag'), P.get('pg'))
    tol = 1e-12 * max(1, np.abs(L.corner).max())
    p0 = geom.get_pixel_positions(centre=False)
    w = L.positions()
    err = np.abs(p0 - w).max()
    if not ctx.check(err <= tol, 'misplaced', '%s: pixels up to %g m from where the arguments put them (first in module %d)' % (
            what, err, np.unravel_index(np.abs(p0 - w).argmax(), w.shape)[0])):
        return
    ctx.seen(det, kind, unit, P.get('ag') is None, P.get('pg') is None)

    # The same in another unit
    u2 = rng.choice(geo.UNITS + [px])
    g2 = build(rng, ctx, det, P, u2, True)
    ctx.count('units'); ctx.count('built')
    err = np.abs(g2.get_pixel_positions(centre=False) - p0).max()
    ctx.check(err <= tol, 'unit-dependent', '%s: the same positions in units of %g m give pixels off by %g m' % (what, u2, err))

    # Shift one quadrant, or one module of a calibration file
    Q = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in P.items()}
    d = np.array([rng.choice([1e-3, -.02, px, 0.]), rng.choice([2e-3, -px / 3, .05])])
    q = rng.randrange(4)
    moved = set(range(4 * q, 4 * q + 4))
    sub = None
    if kind == 'h5' and rng.random() < .5:
        j = rng.randrange(4)
        moved = {4 * q + j}
        if rng.random() < .5:
            Q['mod'][q, j] += d
        else:
            sub = rng.randrange(geo.TILES[det])
            Q['tile'][q, j, sub] += d
    else:
        Q['quads'][q] += d
    g3 = build(rng, ctx, det, Q, unit or default, unit is not None)
    ctx.count('shifted'); ctx.count('built')
    diff = g3.get_pixel_positions(centre=False) - p0
    exp = np.zeros_like(diff)
    for m in moved:
        if sub is None:
            exp[m, ..., :2] = d
        else:
            a, b = geo.tile_origin(det, sub)
            h, wd = geo.TSHAPE[det]
            exp[m, a:a + h, b:b + wd, :2] = d
    ctx.check(np.abs(diff - exp).max() <= 2 * tol, 'shift', '%s: shifting quadrant %d (tile %s) by %s moved modules %s' % (
        what, q + 1, sub, d, sorted(set(np.nonzero(np.abs(diff).max(axis=(1, 2, 3)) > tol)[0].tolist()))))

    if det == 'LPD' and kind == 'h5':
        invert(rng, ctx, P)


def invert(rng, ctx, P):
    from karabo_data.geometry2 import invert_xfel_lpd_geom
    d = ctx.dir('inv')
    a, b = os.path.join(d, 'a.h5'), os.path.join(d, 'b.h5')
    geo.write_h5(a, 'LPD', P['mod'] * 1e3, P['tile'] * 1e3)
    before = open(a, 'rb').read()
    invert_xfel_lpd_geom(a, b)
    ctx.count('inverted')
    ctx.check(open(a, 'rb').read() == before, 'file-changed', 'input of invert_xfel_lpd_geom modified')
    cls = geo.cls_for('LPD')
    g = cls.from_h5_file_and_quad_positions(b, P['quads'] * 1e3)
    L = geo.lpd_file_layout(-P['mod'], -P['tile'], P['quads'], 1.)
    ctx.check(np.abs(g.get_pixel_positions(centre=False) - L.positions()).max() <= 1e-12, 'inverted', 'inverted calibration file gives other positions')
    with h5py.File(b, 'r') as f:
        ctx.check('DetectorDescription' in f and dict(f['DetectorDescription'].attrs) == {'note': 'generated'}, 'inverted-description',
                  'description missing in the inverted file: %s' % list(f))
    try:
        invert_xfel_lpd_geom(a, b)
    except OSError:
        pass
    else:
        ctx.check(False, 'inverted-overwrote', 'invert_xfel_lpd_geom replaced an existing file')
