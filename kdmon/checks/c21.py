"""C21: image assembly puts every pixel at its physical place."""
import re

import numpy as np
from ..util import *
from .. import geo

ID = 'C21'
RULE = ("random geometries of the three detectors from every constructor (quadrant positions, HDF5 calibration files, hand-written CrystFEL files with "
        "shifted, flipped, turned and slightly rotated tiles) x random data dtypes, leading dimensions, memory layouts and output arrays; each "
        "image pixel is traced back to the input pixel it came from; also the interpolating assembly, the plotted image and the old LPD class; "
        "distinct by detector, constructor, dtype, leading shape and output mode")
ASSUME = ["tiles do not overlap on the pixel grid", "tile vectors are within 30 degrees of a multiple of 90 degrees and close to one pixel long (fast assembly)"]
MINIMUM = {'pixels_traced': 40_000_000, 'gap_pixels': 5_000_000, 'out_given': 10, 'interpolated': 1, 'old': 4, 'plots': 3}

DT = ['f4', 'f8', 'u4', 'i4', 'u2', 'i2', 'u8', '?', 'u1']


def cases(tier, seed):
    n, m, o = {'quick': (64, 2, 8), 'thorough': (1600, 24, 200)}[tier]
    return [('i', seed, i) for i in range(m)] + [('f', seed, i) for i in range(n)] + [('o', seed, i) for i in range(o)]


def make_data(rng, shape, dtype, lead):
    """Data in which (almost) every pixel has its own value"""
    n = int(np.prod(shape))
    ids = np.arange(1, n + 1).reshape(shape)
    frames = []
    for k in range(int(np.prod(lead)) if lead else 1):
        frames.append(ids + k * 7)
    d = np.stack(frames).reshape(tuple(lead) + shape)
    if dtype == '?':
        return (d * 2654435761 % 4294967296 >> 13) & 1 > 0
    if dtype in ('u2', 'i2', 'u1'):
        m = {'u2': 65521, 'i2': 32749, 'u1': 251}[dtype]
        return (d % m + 1).astype(dtype)
    return d.astype(dtype)


def run_case(case, ctx):
    kind, seed, i = case
    rng = rng_for(ID, kind, seed, i)
    {'f': fast, 'i': interpolate, 'o': old}[kind](rng, ctx, i)


def layout_data(rng, d):
    """The same data in another memory layout"""
    how = rng.choice(['c', 'c', 'moved', 'strided', 'readonly'])
    if how == 'moved':
        # e.g. (module, frames.., ss, fs) in memory
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(d, -3, 0)), 0, -3)
    if how == 'strided':
        big = np.zeros(d.shape[:-1] + (d.shape[-1] * 2,), d.dtype)
        big[..., ::2] = d
        return big[..., ::2]
    if how == 'readonly':
        d = d.copy()
        d.flags.writeable = False
    return d


def fast(rng, ctx, i):
    det = ['AGIPD', 'LPD', 'DSSC'][i % 3]
    kind = geo.KINDS[i // 3 % 5]
    geom, L, desc = geo.make_geometry(rng, ctx, det, kind)
    N = int(np.prod(L.shape))
    pxs = geo.px_shape(det)
    # Where each input pixel should be, in (y, x) pixel units
    want = (L.grid_centres()[..., :2] / pxs)[..., ::-1].reshape(N, 2)
    tilt = L.tilt()
    snapshot = geom.get_pixel_positions()
    outs, kept = {}, {}
    for rep in range(rng.choice([1, 2, 3])):
        dtype = rng.choice(DT)
        lead = rng.choice([(), (), (), (1,), (2,), (2, 1), (3,)])
        d = make_data(rng, L.shape, dtype, lead)
        given = layout_data(rng, d)
        via = rng.choice(['fast', 'fast', 'all', 'out', 'out', 'reuse', 'stackview'])
        meth = geom.position_all_modules if via == 'all' else geom.position_modules_fast
        fill = 0 if d.dtype.kind in 'iub' else np.nan
        odt = d.dtype
        if via == 'out':
            ctx.count('out_given')
            odt = np.dtype(rng.choice([x for x in DT if np.can_cast(d.dtype, x, 'safe')]))
            if rng.random() < .5:
                out = geom.output_array_for_position_fast(extra_shape=lead, dtype=odt)
                fill = 0 if odt.kind in 'iub' else np.nan
                ctx.check(out.dtype == odt and out.shape[:-2] == tuple(lead) and
                          (np.isnan(out).all() if odt.kind == 'f' else not out.any()),
                          'output-array', 'output_array_for_position_fast(%r, %s)' % (lead, odt))
            else:
                out = geom.output_array_for_position_fast(extra_shape=lead, dtype=odt)
                fill = True if odt.kind == 'b' else 77
                out[...] = fill
            res, centre = meth(given, out=out)
            ctx.check(res is out, 'out-ignored', 'the array given as out= was not returned')
        elif via == 'reuse' and (dtype, lead) in outs:
            ctx.count('out_given')
            out = outs[dtype, lead]
            res, centre = meth(given, out=out)
            ctx.check(res is out, 'out-ignored', 'the array given as out= was not returned')
        elif via == 'stackview' and not lead:
            from karabo_data import stack_detector_data
            train = {'D/DET/%dCH0:xtdf' % m: {'image.data': given[m]} for m in range(16)}
            res, centre = meth(stack_detector_data(train, 'image.data', axis=-3, real_array=False))
            ctx.count('stackview')
        else:
            res, centre = meth(given)
        if via != 'out':
            outs[dtype, lead] = res
        kept[id(res)] = (res, res.copy())
        if not verify(ctx, L, d, res, odt, centre, want, tilt, fill, det, desc, lead):
            return
        ctx.check(np.array_equal(d, given), 'input-modified', 'assembling modified the input data')
        ctx.seen(det, desc, dtype, lead, via, str(odt))
    if i % 2 == 0:
        # another image of each kind does not disturb those returned before
        for dtype, lead in list(outs):
            geom.position_modules_fast(make_data(rng, L.shape, dtype, lead)[..., ::-1])
            geom.output_array_for_position_fast(extra_shape=lead, dtype=dtype)[...] = 1
    for a, b in kept.values():
        ctx.check(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'), 'result-changed', 'an assembled image changed when another one was assembled')
    ctx.count('kept_images', len(kept))
    # wrong output arrays are refused
    bad = rng.choice(['cast', 'shape', 'data'])
    d = make_data(rng, L.shape, 'f8', ())
    ctx.count('refused')
    try:
        if bad == 'cast':
            geom.position_modules_fast(d, out=geom.output_array_for_position_fast(dtype=rng.choice(['f4', 'u2', 'i8'])))
        elif bad == 'shape':
            o = geom.output_array_for_position_fast(dtype='f8')
            geom.position_modules_fast(d, out=np.zeros((o.shape[0] + 1, o.shape[1])))
        else:
            geom.position_modules_fast(d[:15])
    except (TypeError, AssertionError, ValueError, IndexError):
        pass
    else:
        ctx.check(False, 'accepted-bad-' + bad, 'position_modules_fast did not refuse a wrong %s' % bad)
    if i % 8 == 0:
        plot(rng, ctx, geom, make_data(rng, L.shape, 'f4', ()), det)
    ctx.check(np.array_equal(snapshot, geom.get_pixel_positions()), 'geometry-changed', 'assembling images changed the geometry')


def verify(ctx, L, d, res, odt, centre, want, tilt, fill, det, desc, lead):
    N = want.shape[0]
    what = '%s %s %s lead=%s' % (det, desc, d.dtype, lead)
    if not ctx.check(res.dtype == odt and res.ndim == d.ndim - 1 and res.shape[:-2] == d.shape[:-3], 'image-shape',
                     '%s: image of shape %s dtype %s' % (what, res.shape, res.dtype)):
        return False
    cy, cx = [float(c) for c in centre]
    # Where should a pixel be in the image: rounded to within 0.5 (+ tilt)
    ids = np.arange(N)
    pos = want + [cy, cx]             # in image coordinates, pixel k spans k..k+1
    idx = np.floor(pos).astype(int)
    H, W = res.shape[-2:]
    # Find the integer place actually used by following distinct values
    frames = d.reshape((-1, N))
    imgs = res.reshape((-1, H, W))
    lo, hi = pos.min(axis=0), pos.max(axis=0)
    ctx.check(lo.min() > -.51 - tilt and hi[0] < H + .51 + tilt and hi[1] < W + .51 + tilt, 'image-size',
              '%s: the image %s does not cover the detector, which spans %s to %s' % (what, (H, W), lo, hi))
    key = (d.dtype.kind in 'uif' and d.dtype.itemsize >= 4)
    ok = True
    if key:
        k = 0
        img, fr = imgs[k], frames[k]
        filled = ~np.isnan(img) if img.dtype.kind == 'f' and fill != fill else (img != fill)
        if fill == 77 and img.dtype.kind != 'b':
            # the fill value may also be the value of one pixel
            y, x = idx[np.searchsorted(fr, 77)] if 77 in fr else (None, None)
            extra = int(77 in fr)
        else:
            extra = 0
        vals = img[filled].astype('f8')
        order = np.sort(vals)
        expect = np.sort(fr.astype('f8'))
        if extra:
            expect = expect[expect != 77]
            order = order[order != 77]
        if not ctx.check(len(order) == len(expect) and np.array_equal(order, expect), 'pixels-lost-or-repeated',
                         '%s: %d image pixels filled for %d input pixels, %d of them distinct' % (
                             what, len(order), len(expect), len(np.unique(order)))):
            return False
        yy, xx = np.nonzero(filled)
        v = img[yy, xx].astype('f8')
        sel = v != 77 if extra else slice(None)
        # value -> input index (values are id+1 + offset)
        inp = (v - float(fr[0])).astype(int)
        dy = yy + .5 - pos[inp, 0]
        dx = xx + .5 - pos[inp, 1]
        tol = .5 + tilt + 1e-6
        bad = (np.abs(dy) > tol) | (np.abs(dx) > tol)
        if extra:
            bad &= v != 77
        ok = ctx.check(not bad.any(), 'misplaced',
                       '%s: %d of %d pixels are not at their physical place, e.g. input %s at image %s expected about %s' % (
                           what, bad.sum(), N, np.unravel_index(inp[np.argmax(bad)], L.shape), (yy[np.argmax(bad)], xx[np.argmax(bad)]),
                           pos[inp[np.argmax(bad)]]))
        # keep the map input -> image, for the other frames
        m = np.full(N, -1)
        m[inp] = yy * W + xx
        if extra:
            m[inp[v == 77]] = -1
        ctx.count('pixels_traced', N)
        ctx.count('gap_pixels', int((~filled).sum()))
    else:
        # Values are not distinct: reconstruct the map from a run with distinct values
        m = None
    if m is None or (m < 0).any():
        return ok & compare_near(ctx, what, imgs, frames, idx, pos, fill, tilt, N)
    for k in range(imgs.shape[0]):
        flat = imgs[k].reshape(-1)
        if not ctx.check(np.array_equal(flat[m], frames[k].astype(odt)), 'frame-differs',
                         '%s: frame %d is not assembled like frame 0' % (what, k)):
            return False
        rest = np.ones(flat.shape, bool)
        rest[m] = False
        r = flat[rest]
        ctx.check(bool(np.isnan(r).all() if fill != fill else (r == fill).all()), 'gap-value',
                  '%s: pixels between the tiles are not %r but e.g. %s' % (what, fill, np.unique(r)[:4]))
    return ok


def compare_near(ctx, what, imgs, frames, idx, pos, fill, tilt, N):
    """Each tile's place is within rounding, so one of the 4 nearest pixels has
    the value; and the number of pixels filled must fit."""
    for k in range(imgs.shape[0]):
        img = imgs[k]
        H, W = img.shape
        near = np.zeros(N, bool)
        for oy in (-1, 0, 1):
            for ox in (-1, 0, 1):
                y, x = idx[:, 0] + oy, idx[:, 1] + ox
                inside = (y >= 0) & (y < H) & (x >= 0) & (x < W)
                close = (np.abs(y + .5 - pos[:, 0]) <= .5 + tilt + 1e-6) & (np.abs(x + .5 - pos[:, 1]) <= .5 + tilt + 1e-6) & inside
                near[close] |= img[y[close], x[close]] == frames[k][close]
        ctx.count('pixels_traced', N)
        if not ctx.check(near.all(), 'misplaced', '%s: %d of %d pixels are not at their physical place' % (what, (~near).sum(), N)):
            return False
        # no image pixel away from all input pixels is filled
        cov = np.zeros((H + 4, W + 4), bool)
        for oy in (1, 2, 3):
            for ox in (1, 2, 3):
                cov[np.clip(idx[:, 0] + oy, 0, H + 3), np.clip(idx[:, 1] + ox, 0, W + 3)] = True
        r = img[~cov[2:-2, 2:-2]]
        ctx.count('gap_pixels', int(r.size))
        ctx.check(bool(np.isnan(r).all() if fill != fill else (r == fill).all()), 'gap-value',
                  '%s: pixels between the tiles are not %r but e.g. %s' % (what, fill, np.unique(r)[:4]))
        if (frames.dtype.kind != 'b' or fill != fill) and fill != 77:
            filled = ~np.isnan(img) if fill != fill else img != 0
            ctx.check(int(filled.sum()) == N, 'pixels-lost-or-repeated',
                      '%s: %d image pixels filled for %d input pixels' % (what, filled.sum(), N))
    return True


def plot(rng, ctx, geom, d, det):
    import matplotlib.pyplot as plt
    ctx.count('plots')
    img, centre = geom.position_modules_fast(d)
    units = rng.choice(['px', 'm'])
    front = rng.choice([True, False])
    fig, ax = plt.subplots()
    try:
        given = rng.random() < .5
        r = geom.plot_data_fast(d, axis_units=units, frontview=front, ax=ax if given else None, colorbar=rng.choice([True, False]))
        ctx.check(not given or r is ax, 'plot-axes', 'plot_data_fast did not draw on the axes given')
        shown = r.images[0]
        a = np.asarray(np.ma.filled(shown.get_array().astype('f8'), np.nan))
        ctx.check(a.shape == img.shape and np.array_equal(a, img.astype('f8'), equal_nan=True), 'plot-image',
                  'plot_data_fast shows another image than position_modules_fast makes')
        x0, x1, y0, y1 = shown.get_extent()
        s = geo.PX[det] if units == 'm' else 1
        H, W = img.shape
        cy, cx = centre
        # rows of hexagonal pixels are closer together than columns
        rows = 1.5 / 3 ** .5 if det == 'DSSC' else 1
        sy = s * rows if units == 'm' else s
        ctx.check(max(abs(x0 / s + cx), abs(x1 / s - (W - cx)), abs(y0 / sy + cy), abs(y1 / sy - (H - cy))) <= 1.01, 'plot-extent',
                  '%s plotted with extent %s for an image %s with centre %s (%s)' % (det, (x0, x1, y0, y1), img.shape, centre, units))
        asp = r.get_aspect()
        asp = 1 if asp == 'equal' else asp
        ctx.check(asp == 'auto' or abs(asp / (rows if units == 'px' else 1) - 1) < .01, 'plot-aspect', '%s plotted in %s with aspect %s' % (det, units, asp))
        from matplotlib.collections import LineCollection
        for c in r.collections:
            if isinstance(c, LineCollection):
                for seg in c.get_segments():
                    ctx.check(np.abs(seg.mean(axis=0)).max() <= s, 'plot-centre', 'centre line at %s in %s' % (seg.tolist(), units))
        ctx.check(shown.origin == 'lower', 'plot-origin', 'image plotted upside down')
        ctx.check(r.xaxis_inverted() == front and not r.yaxis_inverted(), 'plot-direction', 'frontview=%s but x axis inverted=%s' % (front, r.xaxis_inverted()))
        ctx.check('metre' in r.get_xlabel() if units == 'm' else 'pixel' in r.get_xlabel(), 'plot-label', r.get_xlabel())
    finally:
        plt.close('all')


def interpolate(rng, ctx, i):
    det = 'AGIPD'
    geom, L, desc = geo.make_geometry(rng, ctx, det, ['quads', 'tilted', 'turned', 'snap'][i % 4])
    h, w = geo.TSHAPE[det]
    a, b = rng.uniform(-1, 1), rng.uniform(-1, 1)
    d = np.zeros(L.shape, rng.choice(['f8', 'f4', 'i4', 'u4', 'u2', 'i8']))
    whole = d.dtype.kind in 'iu'
    sign = -1 if d.dtype.kind == 'i' and rng.random() < .5 else 1
    if whole:
        a, b = rng.randint(-1, 1), rng.randint(-1, 1)
    s, f = np.mgrid[:h, :w]
    for m in range(16):
        for t in range(8):
            x, y = geo.tile_origin(det, t)
            d[m, x:x + h, y:y + w] = sign * (500 * (m * 8 + t + 1) + a * s + b * f)
    keep = d.copy()
    out, centre = geom.position_modules_interpolate(d)
    ctx.count('interpolated')
    ctx.check(np.array_equal(keep, d), 'input-modified', 'interpolating modified the input')
    cy, cx = [float(c) for c in centre]
    H, W = out.shape
    px = geo.PX[det]
    yy, xx = np.mgrid[:H, :W]
    P = np.stack([xx + .5 - cx, yy + .5 - cy], axis=-1) * px
    near = np.zeros((H, W), bool)
    ctx.check(out.dtype == d.dtype, 'interp-dtype', '%s data gives a %s image' % (d.dtype, out.dtype))
    if whole:
        out = np.where(out == 0, np.nan, out.astype('f8'))      # no pixel of the data is 0
    filled = ~np.isnan(out)
    for m in range(16):
        for t in range(8):
            A = np.stack([L.ss[m, t, :2], L.fs[m, t, :2]], axis=1)
            cor = L.tile_corners(m, t)[:, :2] / px + [cx, cy]
            x0, y0 = np.floor(cor.min(axis=0)).astype(int) - 3
            x1, y1 = np.ceil(cor.max(axis=0)).astype(int) + 3
            if not ctx.check((cor > -1e-6).all() and (cor < [W + 1e-6, H + 1e-6]).all(), 'interp-size',
                             '%s: tile %d/%d with corners %r is not inside the image of %r' % (desc, m, t, cor.tolist(), (W, H))):
                raise Stop
            x0, y0 = max(x0, 0), max(y0, 0)
            q = (P[y0:y1, x0:x1] - L.corner[m, t, :2]) @ np.linalg.inv(A).T
            u, v = q[..., 0], q[..., 1]      # slow / fast scan coordinate of the image pixel's centre
            near[y0:y1, x0:x1] |= (u > -1) & (u < h + 1) & (v > -1) & (v < w + 1)
            o = out[y0:y1, x0:x1]
            inner = (u > 1.1) & (u < h - 1.1) & (v > 1.1) & (v < w - 1.1)
            deep = (u > 14) & (u < h - 14) & (v > 14) & (v < w - 14)
            ctx.check(not np.isnan(o[inner]).any(), 'interp-holes', 'tile %d/%d has %d empty pixels inside' % (m, t, np.isnan(o[inner]).sum()))
            exp = sign * (500 * (m * 8 + t + 1) + a * (u - .5) + b * (v - .5))
            err = np.abs(o[deep] - exp[deep])
            if not ctx.check(err.size and np.nanmax(err) < (.51 if whole else 1e-3 if d.dtype == 'f8' else 1e-1), 'interp-value',
                             '%s: tile %d/%d: interpolated values off by up to %g' % (desc, m, t, np.nanmax(err) if err.size else -1)):
                raise Stop
            ctx.count('interp_pixels', int(deep.sum()))
    ctx.check(not (filled & ~near).any(), 'interp-gaps', 'pixels away from all tiles were filled')
    ctx.seen('interp', desc)


def grown(a):
    r = a.copy()
    for dy in (-1, 0, 1):
        for dx in (-1, 0, 1):
            r |= np.roll(a, (dy, dx), (0, 1))
    return r


def old_lines(ctx, ax, centre, what):
    """Lines mark the centre, if there are any"""
    from matplotlib.collections import LineCollection
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for seg in c.get_segments():
                ctx.check(np.abs(seg.mean(axis=0) - centre).max() <= 1, 'old-centre', '%s: centre line at %s, the centre is %s' % (what, seg.tolist(), centre))


def old(rng, ctx, i):
    """The deprecated LPDGeometry class"""
    import h5py, os
    from karabo_data.geometry import LPDGeometry, splitChannelDataIntoTiles
    nprng = np.random.default_rng(rng.getrandbits(64))
    mod, tile, quads = geo.h5_params(rng, 'LPD', nprng)
    unit = rng.choice([1e-3, 1e-3, 1e-2])
    k = 1e-3 / unit
    path = os.path.join(ctx.dir('g'), 'geo.h5')
    geo.write_h5(path, 'LPD', mod * k, tile * k)
    with h5py.File(path, 'r') as f:
        geom = LPDGeometry.from_h5_file_and_quad_positions(f, quads * k, **({} if unit == 1e-3 else {'unit': unit}))
    lead = rng.choice([(), (2,), (1, 2)])
    dt = rng.choice(['f4', 'f8', 'u4', 'i8'])
    d = make_data(rng, (16, 256, 256), dt, lead)
    img, centre = geom.position_all_modules(d)
    ctx.count('old')
    ctx.check(img.dtype == d.dtype and img.shape[:-2] == d.shape[:-3], 'old-shape', '%s %s' % (img.shape, img.dtype))
    cx, cy = centre
    H, W = img.shape[-2:]
    # in this class, the position is the corner with the lowest x & y of a tile whose data runs backwards
    s, f = np.mgrid[:32, :128]
    posy = np.zeros((16, 256, 256)); posx = np.zeros((16, 256, 256))
    for m in range(16):
        for t in range(16):
            p = (quads[m // 4] + mod[m // 4, m % 4] + tile[m // 4, m % 4, t]) * 1e-3 / 5e-4
            a, b = geo.tile_origin('LPD', t)
            posx[m, a:a + 32, b:b + 128] = p[0] + cx + (127 - f) + .5
            posy[m, a:a + 32, b:b + 128] = p[1] + cy + (31 - s) + .5
    N = 16 * 256 * 256
    fr = d.reshape((-1, N)); im = img.reshape((-1, H, W))
    for k in range(fr.shape[0]):
        filled = ~np.isnan(im[k]) if im.dtype.kind == 'f' else im[k] != 0
        yy, xx = np.nonzero(filled)
        v = im[k][yy, xx].astype('f8')
        if not ctx.check(np.array_equal(np.sort(v), np.sort(fr[k].astype('f8'))), 'old-pixels', 'old LPDGeometry: %d pixels filled of %d' % (len(v), N)):
            return
        inp = (v - float(fr[k][0])).astype(int)
        dy = yy + .5 - posy.reshape(-1)[inp]
        dx = xx + .5 - posx.reshape(-1)[inp]
        ctx.check(max(abs(dy).max(), abs(dx).max()) <= 1 + 1e-6, 'old-misplaced',
                  'old LPDGeometry: pixels up to %g, %g from their place' % (abs(dy).max(), abs(dx).max()))
        ctx.count('pixels_traced', N)
    # splitting one module's data into tiles
    md = d[..., 3, :, :]
    cw = splitChannelDataIntoTiles(md, clockwiseOrder=True)
    rd = splitChannelDataIntoTiles(md)
    for t in range(16):
        a, b = geo.tile_origin('LPD', t)
        ctx.check(np.array_equal(cw[t], md[..., a:a + 32, b:b + 128]), 'old-split', 'clockwise tile %d' % t)
        a, b = 32 * (t % 8), 128 * (t // 8)
        ctx.check(np.array_equal(rd[t], md[..., a:a + 32, b:b + 128]), 'old-split', 'tile %d in reading order' % t)
    if rng.random() < .3:
        import matplotlib.pyplot as plt
        d3 = d.reshape((-1, 16, 256, 256))[0]
        fig = geom.plot_data(d3)
        shown = fig.axes[0].images[0]
        a = np.ma.filled(np.ma.asarray(shown.get_array()).astype('f8'), np.nan)
        ctx.check(np.array_equal(a, im[0].astype('f8'), equal_nan=True) and shown.origin == 'upper', 'old-plot', 'plot_data shows another image than position_all_modules makes')
        old_lines(ctx, fig.axes[0], centre, 'plot_data')
        fig = geom.inspect()
        ax = fig.axes[0]
        b = np.asarray(ax.images[0].get_array())
        green = np.abs(b - 1).max(axis=-1) > .01
        full = ~np.isnan(im[0]) if im.dtype.kind == 'f' else im[0] != 0
        if ctx.check(green.shape == full.shape and ax.images[0].origin == 'upper', 'old-inspect', 'inspect draws %s, data is %s' % (green.shape, full.shape)):
            ctx.check(not (green & ~grown(full)).any() and not (full & ~grown(green)).any(), 'old-inspect', 'inspect draws tiles where there is no data')
        old_lines(ctx, ax, centre, 'inspect')
        # distance of a label from each tile
        org = np.array([[(quads[m // 4] + mod[m // 4, m % 4] + tile[m // 4, m % 4, t]) * 2 + centre for t in range(16)] for m in range(16)])
        named = 0
        for t in ax.texts:
            q = re.fullmatch(r'Q(\d)M(\d)', t.get_text())
            pos = np.array(t.get_position())
            dist = np.hypot(*np.moveaxis(np.maximum(0, np.maximum(org - pos, pos - org - [128, 32])), -1, 0))
            if q:
                named += 1
                m = (int(q[1]) - 1) * 4 + int(q[2]) - 1
                ctx.check(dist[m].min() <= dist.min() + 2, 'old-labels', '%s is written at %s, %.0f from the module' % (t.get_text(), pos, dist[m].min()))
            elif t.get_text().isdigit():
                ctx.check(dist[:, int(t.get_text()) - 1].min() <= 2, 'old-labels', 'tile number %s is written at %s' % (t.get_text(), pos))
            ctx.count('labels')
        ctx.check(named in (0, 16), 'old-labels', '%d modules named' % named)
        listing = str(geom)
        m = t = q = -1
        told = {}
        for nm, a, b in re.findall(r'\b([QMT]\d+)\b[:\s[(]+([-+.\de]+)\s+([-+.\de]+)', listing):
            if nm[0] == 'Q':
                q = int(nm[1:]) - 1
                told[q, ] = float(a), float(b), quads[q]
            elif nm[0] == 'M':
                m = int(nm[1:]) - 1
                told[q, m] = float(a), float(b), mod[q, m]
            else:
                t = int(nm[1:]) - 1
                told[q, m, t] = float(a), float(b), tile[q, m, t]
        ctx.check(len(told) == 4 + 16 + 256, 'old-listing', '%d fragments listed' % len(told))
        bad = [(k, v) for k, v in told.items() if np.abs(np.array(v[:2]) - np.asarray(v[2]) * 1e-3).max() > 1e-6]
        ctx.check(not bad, 'old-listing', 'listed with another position: %s' % bad[:2])
        plt.close('all')
        i2, c2 = geom.position_all_modules(d)
        ctx.check(np.array_equal(i2, img, equal_nan=True), 'geometry-changed', 'plotting changed the old geometry')
    ctx.seen('old', dt, lead)
