"""C22: all coordinate interfaces of a geometry describe the same positions."""
import copy
import re

import numpy as np
from ..util import *
from .. import geo

ID = 'C22'
RULE = ("random geometries of the three detectors from every constructor (also tilted tiles with z components); positions of all pixels, of random "
        "whole and fractional data coordinates (all integer types, n-dimensional), corners in distortion arrays, tile splitting, and the tiles drawn by "
        "inspect/compare, all against tile corner + steps of the layout the geometry was made from; distinct by detector, constructor and interface")
ASSUME = ["coordinates lie inside the module (0 <= c < size)", "data_coords_to_positions is documented for AGIPD and LPD only"]
MINIMUM = {'pixel_positions': 10_000_000, 'coords': 40_000, 'corners': 10_000_000, 'drawn': 8, 'split': 40, 'labels': 300, 'arrows': 200}


cases = std_cases({'quick': 48, 'thorough': 2400})
INTS = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'int']


def close(a, b, tol):
    return a.shape == b.shape and not np.isnan(a).any() and float(np.max(np.abs(a - b), initial=0)) <= tol


def run_case(case, ctx):
    seed, i = case
    rng = rng_for(ID, seed, i)
    det = ['AGIPD', 'LPD', 'DSSC'][i % 3]
    kind = geo.KINDS[i // 3 % 5]
    geom, L, desc = geo.make_geometry(rng, ctx, det, kind)
    what = '%s %s' % (det, desc)
    big = float(np.abs(L.corner).max()) + .3
    tol = 1e-12 * max(1, big)
    steps = ['pos', 'corner', 'coords', 'dist', 'split', 'draw']
    rng.shuffle(steps)
    if i % 4:
        steps.remove('draw')
    for st in steps + rng.sample(steps, 2):
        globals()['do_' + st](rng, ctx, geom, L, what, tol, big)
        ctx.seen(det, desc[:2], st)


def do_pos(rng, ctx, geom, L, what, tol, big):
    p = geom.get_pixel_positions() if rng.random() < .5 else geom.get_pixel_positions(centre=True)
    w = L.centres()
    ctx.count('pixel_positions', w.size // 3)
    ctx.check(close(p, w, tol), 'pixel-centre', '%s: centre positions %s off by %g m' % (
        what, p.shape, np.abs(p - w).max() if p.shape == w.shape else -1))
    p[:] = 0      # must not affect later results


def do_corner(rng, ctx, geom, L, what, tol, big):
    p = geom.get_pixel_positions(centre=False)
    w = L.positions()
    ctx.count('pixel_positions', w.size // 3)
    ctx.check(close(p, w, tol), 'pixel-corner', '%s: corner positions %s off by %g m' % (
        what, p.shape, np.abs(p - w).max() if p.shape == w.shape else -1))


def do_coords(rng, ctx, geom, L, what, tol, big):
    if L.det == 'DSSC':
        return
    nprng = np.random.default_rng(rng.getrandbits(64))
    h, w = geo.TSHAPE[L.det]
    H, W = geo.MSHAPE[L.det]
    for _ in range(4):
        shape = rng.choice([(200,), (1,), (0,), (10, 7), (3, 4, 5), ()])
        mode = rng.choice(['frac', 'frac', 'int', 'mixed', 'edge', 'f4'])
        m = nprng.integers(0, 16, shape)
        s = nprng.uniform(0, H, shape)
        f = nprng.uniform(0, W, shape)
        if mode == 'int':
            s, f = np.floor(s).astype(rng.choice(['i8', 'u2', 'i4'])), np.floor(f).astype(rng.choice(['i8', 'u2', 'i4']))
        elif mode == 'mixed':
            s = np.floor(s).astype('i8')
        elif mode == 'edge':
            # on and just beside the tile borders
            s = np.clip(np.round(s / h) * h + nprng.choice([0, 1e-6, -1e-6], shape), 0, H - 1e-6)
            f = np.clip(np.round(f / w) * w + nprng.choice([0, 1e-6, -1e-6], shape), 0, W - 1e-6)
        elif mode == 'f4':
            s, f = np.minimum(s, H - 1).astype('f4'), np.minimum(f, W - 1).astype('f4')
        idt = rng.choice(INTS)
        mm = np.asarray(m, dtype=idt)
        s, f = np.asarray(s), np.asarray(f)
        ss0, fs0 = s.copy(), f.copy()
        p = geom.data_coords_to_positions(mm, s, f)
        s8, f8 = s.astype('f8'), f.astype('f8')
        # which tile, and where in it
        a, b = np.floor(s8 / h).astype(int), np.floor(f8 / w).astype(int)
        if L.det == 'AGIPD':
            t = a
        else:
            t = np.where(b == 0, 7 - a, 8 + a)
        ts, tf = s8 - a * h, f8 - b * w
        want = L.corner[m, t] + ts[..., None] * L.ss[m, t] + tf[..., None] * L.fs[m, t]
        ctx.count('coords', want.size // 3)
        # single precision coordinates may be worked on in single precision
        t2 = tol if s.dtype != 'f4' else 1e-4 * geo.PX[L.det] * 4 + tol
        ctx.check(p.shape == want.shape and close(p, want, t2), 'data-coords', '%s: data_coords_to_positions(%s, %s) of shape %s gives shape %s, off by %g m' % (
            what, idt, mode, shape, p.shape, np.abs(p - want).max(initial=0) if p.shape == want.shape else -1))
        ctx.check(np.array_equal(s, ss0) and np.array_equal(f, fs0) and np.array_equal(mm, m), 'coords-modified', 'input coordinates modified')
    if rng.random() < .3:
        m, s, f = np.mgrid[:16, :H, :W]
        p = geom.data_coords_to_positions(m, s + .5, f + .5)
        ctx.count('coords', m.size)
        ctx.check(close(p, L.centres(), tol), 'data-coords-all', '%s: positions of all pixel centres' % what)


def do_dist(rng, ctx, geom, L, what, tol, big):
    neg = rng.random() < .5
    d = geom.to_distortion_array(allow_negative_xy=neg) if rng.random() < .7 else geom.to_distortion_array(neg)
    hexa = L.det == 'DSSC'
    nc = 6 if hexa else 4
    H, W = geo.MSHAPE[L.det]
    if not ctx.check(d.dtype == np.float32 and d.shape == (16 * H, W, nc, 3), 'dist-shape', '%s: distortion array %s %s' % (what, d.shape, d.dtype)):
        return
    if hexa:
        offs = [(0, .5), (1 / 3, 1), (1, 1), (4 / 3, .5), (1, 0), (1 / 3, 0)]
    else:
        offs = [(0, 0), (1, 0), (1, 1), (0, 1)]
    want = np.stack([L.positions(a, b) for a, b in offs], axis=-2).reshape(16 * H, W, nc, 3)[..., ::-1]   # z, y, x
    if not neg:
        want = want - np.append(0., want[..., 1:].min(axis=(0, 1, 2)))
    got = d.astype('f8')
    ctx.count('corners', got.size // 3)
    ftol = 1.5e-7 * max(1e-2, big) * 4
    # The corners may start anywhere and go either way round
    cand = None
    probe = got[::max(1, 16 * H // 97), ::17]
    pw = want[::max(1, 16 * H // 97), ::17]
    for rev in (False, True):
        for k in range(nc):
            o = [(k + (-j if rev else j)) % nc for j in range(nc)]
            if np.abs(probe - pw[:, :, o]).max() <= ftol:
                cand = o
    if not ctx.check(cand is not None, 'dist-corners', '%s: corners of pixels are not those of the layout (allow_negative_xy=%s)' % (what, neg)):
        return
    err = np.abs(got - want[:, :, cand])
    ctx.check(float(err.max()) <= ftol, 'dist-corners', '%s: corner off by %g m at %s' % (what, err.max(), np.unravel_index(err.argmax(), err.shape)))
    if not neg:
        ctx.check(abs(float(d[..., 1].min())) <= 1e-9 and abs(float(d[..., 2].min())) <= 1e-9, 'dist-origin', '%s: smallest y, x are %g, %g' % (
            what, d[..., 1].min(), d[..., 2].min()))


def do_split(rng, ctx, geom, L, what, tol, big):
    lead = rng.choice([(), (2,), (1, 3)])
    H, W = geo.MSHAPE[L.det]
    h, w = geo.TSHAPE[L.det]
    d = np.arange(int(np.prod(lead)) * H * W).reshape(lead + (H, W))
    tiles = (geom if rng.random() < .5 else type(geom)).split_tiles(d)
    ctx.count('split')
    ok = len(tiles) == geo.TILES[L.det]
    if ctx.check(ok, 'split-number', '%d tiles' % len(tiles)):
        for t, x in enumerate(tiles):
            a, b = geo.tile_origin(L.det, t)
            ctx.check(np.array_equal(x, d[..., a:a + h, b:b + w]), 'split', '%s: data of tile %d' % (what, t))


def do_draw(rng, ctx, geom, L, what, tol, big):
    import matplotlib.pyplot as plt
    from matplotlib.collections import LineCollection, PatchCollection, PathCollection
    before = geom.get_pixel_positions(centre=False)
    ntiles = 16 * geo.TILES[L.det]
    try:
        units = rng.choice(['px', 'm'])
        front = rng.choice([True, False])
        ax = geom.inspect(axis_units=units, frontview=front)
        scale = 1 / geo.PX[L.det] if units == 'px' else 1.
        ctx.count('drawn')
        polys = [c for c in ax.collections if type(c) is PatchCollection]
        paths = [p for c in polys for p in c.get_paths()]
        if ctx.check(len(paths) == ntiles, 'inspect-tiles', '%d tiles drawn' % len(paths)):
            got = np.stack([p.vertices[:4] for p in paths])
            want = np.stack([L.tile_corners(m, t)[:, :2] for m in range(16) for t in range(geo.TILES[L.det])]) * scale
            cg, cw = got.mean(axis=1), want.mean(axis=1)
            og, ow = np.lexsort(np.round(cg / scale, 7).T), np.lexsort(np.round(cw / scale, 7).T)
            same = np.abs(np.sort(got[og], axis=1) - np.sort(want[ow], axis=1)).max() <= 1e-9 * scale * max(1, big)
            if not same:     # ties in the sorting
                same = all(np.abs(cg - c).max(axis=1).min() <= 1e-9 * scale * max(1, big) for c in cw)
            ctx.check(same, 'inspect-tiles', '%s: tiles drawn at other places' % what)
        marks = [c for c in ax.collections if isinstance(c, PathCollection)]
        if ctx.check(len(marks) == 1, 'inspect-first', '%d sets of markers' % len(marks)):
            off = np.asarray(marks[0].get_offsets())
            t0 = 7 if L.det == 'LPD' else 0
            want = L.corner[:, t0, :2] * scale
            ctx.check(off.shape == want.shape and np.abs(off - want).max() <= 1e-9 * scale * max(1, big), 'inspect-first', '%s: markers of first pixels' % what)
        # lines along the first row of each module, and a cross in the centre
        t0 = 7 if L.det == 'LPD' else 0
        segs = [np.asarray(x) for c in ax.collections if isinstance(c, LineCollection) for x in c.get_segments()]
        segs = np.array([x for x in segs if x.shape == (2, 2)]).reshape(-1, 2, 2)
        a = L.corner[:, t0, :2] * scale
        want = np.stack([a, a + L.fs[:, t0, :2] * geo.TSHAPE[L.det][1] * scale], axis=1)
        tol = 1e-9 * scale * max(1, big)
        for m in range(16):
            ctx.check(any(np.abs(segs - want[m]).max(axis=(1, 2)) <= tol) if len(segs) else False, 'inspect-first-row', '%s: no line from %s to %s for module %d' % (
                what, want[m, 0], want[m, 1], m))
        for ax01, name in ((0, 'horizontal'), (1, 'vertical')):
            ok = [x for x in segs if (x[:, 1 - ax01] == 0).all() and np.abs(x[0] + x[1]).max() < tol and 0 < np.abs(x[0, ax01]) < .1 * scale]
            ctx.check(bool(ok), 'inspect-centre', '%s: no %s line across the centre' % (what, name))
        labels(ctx, ax, L, scale, what, 1)
        ctx.check(('metre' if units == 'm' else 'pixel') in ax.get_ylabel(), 'inspect-unit', 'axis in %s labelled %r' % (units, ax.get_ylabel()))
        ctx.check(('metre' if units == 'm' else 'pixel') in ax.get_xlabel(), 'inspect-unit', 'axis in %s labelled %r' % (units, ax.get_xlabel()))
        ctx.check(ax.xaxis_inverted() == front and not ax.yaxis_inverted(), 'inspect-direction', 'frontview=%s, x inverted=%s' % (front, ax.xaxis_inverted()))
        if L.det == 'AGIPD':
            other, L2, d2 = geo.make_geometry(rng, ctx, 'AGIPD', rng.choice(['quads', 'snap']))
            if rng.random() < .3:
                other, L2 = geom, L
            elif rng.random() < .5:
                # the same, with some tiles moved along one axis
                L2 = L.copy()
                other = copy.deepcopy(geom)
                ax01 = rng.randrange(2)
                for m in range(16):
                    for t in range(8):
                        if rng.random() < .7:
                            dv = rng.choice([-1, 1]) * rng.choice([2, 30.5, 100]) * geo.PX['AGIPD']
                            L2.corner[m, t, ax01] += dv
                            pos = other.modules[m][t].corner_pos.copy()
                            pos[ax01] += dv
                            other.modules[m][t].corner_pos = pos
                d2 = 'moved along one axis'
                ctx.count('one_axis')
            sc = rng.choice([1.0, 5, 10.])
            ax = geom.compare(other, scale=sc)
            ctx.count('drawn')
            cols = [c for c in ax.collections if type(c) is PatchCollection]
            n = sorted(len(c.get_paths()) for c in cols)
            if L2 is L:
                ctx.check(n in ([128], [0, 128]), 'compare-arrows', 'arrows drawn comparing a geometry with itself: %s' % n)
            else:
                ctx.check(n[-1] == 256 or n[0] == 128, 'compare-arrows', '%s' % n)
            labels(ctx, ax, L, 1 / geo.PX['AGIPD'], what, 0)
            rects = [c for c in cols if len(c.get_paths()) == 128][0]
            arrows(ctx, [c for c in cols if c is not rects], L, L2, sc, what + ' against ' + str(d2))
            v = np.concatenate([p.vertices[:4] for p in rects.get_paths()])
            x0, x1 = sorted(ax.get_xlim()); y0, y1 = sorted(ax.get_ylim())
            ctx.check(v[:, 0].min() >= x0 and v[:, 0].max() <= x1 and v[:, 1].min() >= y0 and v[:, 1].max() <= y1, 'compare-limits',
                      'tiles outside the axes')
            if L2 is L:
                ctx.check(np.ptp(v[:, 0]) > .2 * (x1 - x0) and np.ptp(v[:, 1]) > .2 * (y1 - y0), 'compare-limits', 'tiles too small to see: %s in %s' % (
                    np.ptp(v, axis=0), (x1 - x0, y1 - y0)))
    finally:
        plt.close('all')
    ctx.check(np.array_equal(before, geom.get_pixel_positions(centre=False)), 'geometry-changed', '%s: drawing changed the geometry' % what)


def labels(ctx, ax, L, scale, what, first):
    """The names written on modules and tiles stand on what they name"""
    T = geo.TILES[L.det]
    cen = np.stack([L.tile_corners(m, t)[:, :2].mean(axis=0) for m in range(16) for t in range(T)]) * scale
    mods, tiles = [], 0
    for t in ax.texts:
        s = t.get_text()
        if t.get_transform() is not ax.transData or not re.fullmatch(r'Q\dM\d|[Tp]?\d+', s):
            continue
        d = np.hypot(*(cen - np.array(t.get_position())).T)
        k = int(d.argmin())
        m, n = divmod(k, T)
        if d[k] > 40 * geo.PX[L.det] * scale or np.sort(d)[1] - d[k] < 1e-6 * scale:
            ctx.check(d[k] <= 40 * geo.PX[L.det] * scale, 'labels', '%s: label %r is on no tile' % (what, s))
            continue
        ctx.count('labels')
        if s[0] in 'Qp':
            mods.append(s)
            exp = 'Q%dM%d' % (m // 4 + 1, m % 4 + 1) if s[0] == 'Q' else 'p%d' % m
            ctx.check(s == exp, 'labels', '%s: module %s is labelled %r' % (what, exp, s))
        else:
            tiles += 1
            exp = n + first
            ctx.check(int(s.lstrip('T')) == exp, 'labels', '%s: tile %d of module %d is labelled %r' % (what, exp, m, s))
    ctx.check(len(set(mods)) == len(mods) == 16, 'labels', '%s: modules labelled %r' % (what, mods))
    ctx.check(tiles > 0, 'labels', '%s: no tiles are labelled' % what)


def arrows(ctx, cols, L, L2, sc, what):
    """compare(): from each corner of a moved tile an arrow to where it is in the other geometry"""
    paths = [p.vertices for c in cols for p in c.get_paths()]
    exp = []
    for m in range(16):
        for t in range(8):
            a, b = L.tile_corners(m, t)[:, :2], L2.tile_corners(m, t)[:, :2]
            for k in (0, 2):
                a0, d = a[k] / geo.PX['AGIPD'], (b[k] - a[k]) / geo.PX['AGIPD'] * sc
                if np.hypot(*d) > .5:
                    exp.append((m, t, a0, d))
    if not paths:
        ctx.check(not exp, 'compare-arrows', '%s: no arrows for %d moved corners' % (what, len(exp)))
        return
    # which arrow starts there: all its points lie close to the line, beginning at the corner
    big = np.stack([np.concatenate([p, np.repeat(p[-1:], 16 - len(p), axis=0)]) for p in paths])
    for m, t, a0, d in exp:
        ln = np.hypot(*d)
        u = d / ln
        rel = big - a0
        along, across = rel @ u, rel @ np.array([-u[1], u[0]])
        lo, hi, side = along.min(axis=1), along.max(axis=1), np.abs(across).max(axis=1)
        wide = np.take_along_axis(along, np.abs(across).argmax(axis=1)[:, None], 1)[:, 0]
        ok = (np.abs(lo) < .01) & (hi > ln - .01) & (hi < ln + 20) & (side < 30) & (wide > ln / 2)
        ctx.count('arrows')
        if not ctx.check(ok.any(), 'compare-arrows', '%s: no arrow (scale %s) from %s along %s for tile %d of module %d' % (what, sc, a0, d, t, m)):
            break
