"""Detector geometries with known parameters, and an independent account of
where every pixel is.

A ``Layout`` holds for each module and tile the corner and the step vectors in
metres. ``make_geometry`` builds the object under test from one of its public
constructors, together with the Layout it should have.
"""
import os
import h5py, numpy as np

PX = dict(AGIPD=2e-4, LPD=5e-4, DSSC=236e-6)
# modules, tiles per module, tile slow/fast scan pixels, module data shape
TILES = dict(AGIPD=8, LPD=16, DSSC=2)
TSHAPE = dict(AGIPD=(64, 128), LPD=(32, 128), DSSC=(128, 256))
MSHAPE = dict(AGIPD=(512, 128), LPD=(256, 256), DSSC=(128, 512))
HEX = 1.5 / np.sqrt(3)


def cls_for(det):
    from karabo_data import geometry2
    return getattr(geometry2, det + '_1MGeometry')


def tile_origin(det, t):
    """First slow and fast scan index of a tile in its module's data"""
    if det == 'AGIPD':
        return 64 * t, 0
    if det == 'DSSC':
        return 0, 256 * t
    return (32 * (7 - t), 0) if t < 8 else (32 * (t - 8), 128)


def px_shape(det):
    """Size of an image pixel (x, y) in metres"""
    return np.array([1., HEX if det == 'DSSC' else 1.]) * PX[det]


class Layout:
    def __init__(self, det):
        self.det = det
        n = TILES[det]
        self.corner = np.zeros((16, n, 3))
        self.ss = np.zeros((16, n, 3))
        self.fs = np.zeros((16, n, 3))

    def copy(self):
        o = Layout(self.det)
        o.corner, o.ss, o.fs = self.corner.copy(), self.ss.copy(), self.fs.copy()
        return o

    @property
    def shape(self):
        return (16,) + MSHAPE[self.det]

    def positions(self, ss_off=0., fs_off=0., hexshift=True):
        """(16, ss, fs, 3) positions in metres"""
        out = np.full(self.shape + (3,), np.nan)
        h, w = TSHAPE[self.det]
        s, f = np.mgrid[:h, :w].astype(float)
        f = f.copy()
        if self.det == 'DSSC' and hexshift:
            f[1::2] -= 0.5
        s = (s + ss_off)[..., None]
        f = (f + fs_off)[..., None]
        for m in range(16):
            for t in range(TILES[self.det]):
                a, b = tile_origin(self.det, t)
                out[m, a:a + h, b:b + w] = self.corner[m, t] + s * self.ss[m, t] + f * self.fs[m, t]
        assert not np.isnan(out).any()
        return out

    def centres(self):
        return self.positions(2 / 3 if self.det == 'DSSC' else .5, .5)

    def grid_centres(self):
        """Pixel centres if pixels were rectangles in a grid"""
        return self.positions(.5, .5, hexshift=False)

    def tilt(self):
        """How far (in pixels) snapping a tile to the grid's directions moves its pixels"""
        h, w = TSHAPE[self.det]
        dev = 0.
        for v, n in ((self.ss, h), (self.fs, w)):
            u = v[..., :2] / px_shape(self.det)
            dev = np.maximum(dev, 0) + np.abs(u - np.around(u)) * n
        return float(np.max(dev))

    def tile_corners(self, m, t):
        h, w = TSHAPE[self.det]
        c = self.corner[m, t]
        return np.stack([c, c + self.fs[m, t] * w, c + self.fs[m, t] * w + self.ss[m, t] * h, c + self.ss[m, t] * h])


# -- Idealised layouts ------------------------------------------------------

def agipd_layout(quad_pos_m, asic_gap_m, panel_gap_m):
    L = Layout('AGIPD')
    px = PX['AGIPD']
    for m in range(16):
        q, i = divmod(m, 4)
        x, y = [(1, -1), (1, -1), (-1, 1), (-1, 1)][q]
        for t in range(8):
            L.corner[m, t] = [quad_pos_m[q][0] + x * t * (64 * px + asic_gap_m),
                              quad_pos_m[q][1] - i * (128 * px + panel_gap_m), 0]
            L.ss[m, t] = [x * px, 0, 0]
            L.fs[m, t] = [0, y * px, 0]
    return L


def lpd_layout(quad_pos_m, asic_gap_m, panel_gap_m):
    L = Layout('LPD')
    px = PX['LPD']
    # distance of each panel's last corner from that of module 4
    pw = 256 * px + asic_gap_m + panel_gap_m
    ph = 256 * px + 7 * asic_gap_m + panel_gap_m
    offs = [(-pw, 0), (-pw, -ph), (0, -ph), (0, 0)]
    for m in range(16):
        q, i = divmod(m, 4)
        for t in range(16):
            if t < 8:
                dx, dy = -(128 * px + asic_gap_m), -t * (32 * px + asic_gap_m)
            else:
                dx, dy = 0, -(15 - t) * (32 * px + asic_gap_m)
            last = np.array([quad_pos_m[q][0] + offs[i][0] + dx, quad_pos_m[q][1] + offs[i][1] + dy])
            L.corner[m, t, :2] = last - [128 * px, 32 * px]
            L.ss[m, t] = [0, px, 0]
            L.fs[m, t] = [px, 0, 0]
    return L


def lpd_file_layout(mod, tile, quads, unit):
    """mod (4,4,2), tile (4,4,16,2), quads (4,2), all in unit"""
    L = Layout('LPD')
    px = PX['LPD']
    for q in range(4):
        for i in range(4):
            for t in range(16):
                last = (quads[q] + mod[q, i] + tile[q, i, t]) * unit
                m = 4 * q + i
                L.corner[m, t, :2] = last - [128 * px, 32 * px]
                L.ss[m, t] = [0, px, 0]
                L.fs[m, t] = [px, 0, 0]
    return L


def dssc_file_layout(mod, tile, quads, unit):
    L = Layout('DSSC')
    px = PX['DSSC']
    for q in range(4):
        x, y = [(-1, 1), (-1, 1), (1, -1), (1, -1)][q]
        for i in range(4):
            for t in range(2):
                low = (quads[q] + mod[q, i] + tile[q, i, t]) * unit
                m = 4 * q + i
                # the position is the low x, low y corner of the tile; the first
                # pixel is at high x (quadrants 1, 2) or at high y (3, 4)
                L.corner[m, t, :2] = low + ([256 * px, 0] if x < 0 else [0, 128 * px * HEX])
                L.ss[m, t] = [0, y * px * HEX, 0]
                L.fs[m, t] = [x * px, 0, 0]
    return L


# -- Random parameters --------------------------------------------------------

def rnd(rng, a, b, integer=None):
    if integer or (integer is None and rng.random() < .3):
        return float(rng.randint(int(a), int(b)))
    return rng.uniform(a, b)


def quad_positions_px(rng, det, integer=None):
    """Quadrant reference positions in pixels which give no overlaps"""
    k = lambda: rnd(rng, -30, 30, integer)
    if det == 'AGIPD':
        base = [(-600, 700), (-600, -80), (600, -210), (600, 560)]
        return [(x + k(), y + k()) for x, y in base]
    base = [(-40, 640), (-40, -40), (640, -40), (640, 640)]
    return [(x + k(), y + k()) for x, y in base]


def write_h5(path, det, mod, tile, dtypes=('f8', 'f8')):
    with h5py.File(path, 'w') as f:
        f['DetectorDescribtion'] = np.arange(3.)
        f['DetectorDescribtion'].attrs['note'] = 'generated'
        for q in range(4):
            for i in range(4):
                p = 'Q%d/M%d' % (q + 1, i + 1)
                f[p + '/Position'] = mod[q, i].astype(dtypes[0])
                for t in range(TILES[det]):
                    f[p + '/T%02d/Position' % (t + 1)] = tile[q, i, t].astype(dtypes[1])


def h5_params(rng, det, nprng):
    """Module, tile and quadrant positions in mm, without overlaps"""
    if det == 'LPD':
        mod = np.zeros((4, 4, 2))
        mod[:] = [(0, 0), (0, -150), (-150, -150), (-150, 0)]
        tile = np.zeros((4, 4, 16, 2))
        for t in range(16):
            tile[:, :, t] = (0, -18 * t) if t < 8 else (72, -18 * (15 - t))
        quads = np.array([(-170, 170), (-170, -170), (170, -170), (170, 170.)])
        jit = 0.4
    else:
        mod = np.zeros((4, 4, 2))
        for i in range(4):
            mod[:, i] = (0, 32 * i)
        tile = np.zeros((4, 4, 2, 2))
        tile[:, :, 1] = (-64, 0)
        quads = np.array([(60, 20), (60, -160), (-90, -160), (-90, 20.)])
        jit = 0.9
    mod = mod + nprng.uniform(-jit, jit, mod.shape)
    tile = tile + nprng.uniform(-jit, jit, tile.shape)
    quads = quads + nprng.uniform(-5, 5, quads.shape)
    # modules are recorded in any arrangement in the quadrant
    if rng.random() < .5:
        for q in range(4):
            mod[q] = mod[q][nprng.permutation(4)]
    if rng.random() < .3:
        for q in range(4):
            for i in range(4):
                tile[q, i] = tile[q, i][nprng.permutation(TILES[det])]
    return mod, tile, quads


def random_layout(rng, det, kind, nprng):
    """Tiles on a grid of free places: kind 'snap' axis aligned, 'turned'
    also in other orientations, 'tilted' a bit rotated in all directions."""
    L = Layout(det)
    h, w = TSHAPE[det]
    px = PX[det]
    n = TILES[det]
    sx, sy = px_shape(det)
    turn = kind == 'turned' and det != 'DSSC'
    if turn:
        gh = gw = max(h, w) + 6
    else:
        gh, gw = h + 6, w + 6
    total = 16 * n
    cols = max(1, int(round((total * gh / gw) ** .5)))
    rows = -(-total // cols)
    places = [(c - cols // 2, r - rows // 2) for r in range(rows) for c in range(cols)][:total]
    rng.shuffle(places)
    shift = nprng.uniform(-300, 300, 2) if rng.random() < .7 else np.zeros(2)
    if rng.random() < .3:
        shift = shift + rng.choice([-1, 1]) * rng.choice([5000, 40000])
    for m in range(16):
        for t in range(n):
            c, r = places[m * n + t]
            # lower left corner in grid units
            x0 = c * gw + 2 + nprng.uniform(-1, 1) + shift[0]
            y0 = r * gh + 2 + nprng.uniform(-1, 1) + shift[1]
            if rng.random() < .3:
                x0, y0 = round(x0), round(y0)
            fx, fy = rng.choice([1, -1]), rng.choice([1, -1])
            if turn and rng.random() < .5:
                # fast scan along y
                ss = np.array([fx, 0., 0]); fs = np.array([0., fy, 0])
                ww, hh = h, w
                cx = x0 + (ww if fx < 0 else 0)
                cy = y0 + (hh if fy < 0 else 0)
            else:
                fs = np.array([fx, 0., 0]); ss = np.array([0., fy, 0])
                cx = x0 + (w if fx < 0 else 0)
                cy = y0 + (h if fy < 0 else 0)
            z = 0.
            if kind == 'tilted':
                a = rng.choice([1e-3, 3e-3, 1e-5, 1e-7, 0.]) * rng.choice([1, -1])
                co, si = np.cos(a), np.sin(a)
                R = np.array([[co, -si, 0], [si, co, 0], [0, 0, 1]])
                fs, ss = R @ fs, R @ ss
                if rng.random() < .5:
                    fs[2] = rng.choice([1e-3, -1e-5, 2e-7, 0])
                    ss[2] = rng.choice([-1e-3, 1e-5, 3e-7, 0])
                z = rng.choice([0., 1e-3, -2e-3, 1e-6])
            scale = np.array([sx, sy, px])
            L.corner[m, t] = [cx * sx, cy * sy, z]
            L.ss[m, t] = ss * (scale if kind != 'tilted' or det == 'DSSC' else px)
            L.fs[m, t] = fs * (scale if kind != 'tilted' or det == 'DSSC' else px)
    return L


def num(x, rng):
    """A number as people write it in .geom files (no exponents)"""
    s = np.format_float_positional(x, trim='-')
    return s


def crystfel_vec(v, rng, short):
    parts = []
    for x, n in zip(v, 'xyz'):
        if x == 0 and (n == 'z' or (short and rng.random() < .5)):
            # x and y keep their defaults if left out, so only omit if the default is 0
            if n == 'z':
                continue
        s = np.format_float_positional(x, trim='-', sign=True)
        if short and abs(x) == 1:
            s = s[0]
        parts.append(s + n)
    return rng.choice([' ', '  ', '']).join(parts) if short else ' '.join(parts)


def write_geom(path, L, rng, style='plain'):
    """A CrystFEL geometry file written by hand, independent of the library"""
    det = L.det
    h, w = TSHAPE[det]
    res = 1 / PX[det] if style != 'res' else rng.choice([1000., 2500., 5000.])
    px = 1 / res
    lines = ['; written by kdmon', 'clen = 0.25', 'adu_per_eV = 0.0075', 'data = /entry/data', 'dim0 = %']
    if style != 'panelres':
        lines.append('res = %r' % res)
    twod = rng.random() < .5
    for m in range(16):
        for t in range(TILES[det]):
            n = 'p%da%d' % (m, t)
            a, b = tile_origin(det, t)
            off = m * MSHAPE[det][0] if twod else 0
            p = [('min_fs', b), ('max_fs', b + w - 1), ('min_ss', a + off), ('max_ss', a + off + h - 1),
                 ('corner_x', repr(float(L.corner[m, t, 0] / px))), ('corner_y', repr(float(L.corner[m, t, 1] / px))),
                 ('fs', crystfel_vec(L.fs[m, t] / px, rng, style == 'short')),
                 ('ss', crystfel_vec(L.ss[m, t] / px, rng, style == 'short'))]
            if twod:
                p += [('dim1', 'ss'), ('dim2', 'fs')]
            else:
                p += [('dim1', m), ('dim2', 'ss'), ('dim3', 'fs')]
            if L.corner[m, t, 2] or rng.random() < .3:
                p.append(('coffset', repr(float(L.corner[m, t, 2]))))
            if style == 'panelres':
                p.append(('res', repr(res)))
            if style == 'short':
                rng.shuffle(p)
            lines += ['%s/%s = %s' % (n, k, v) for k, v in p]
            if rng.random() < .05:
                lines.append('; a comment')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


UNITS = [1e-3, 1e-2, 1., 2.5e-4, 1e-6]


def make_geometry(rng, ctx, det, kind):
    """Returns (geometry object, Layout, description)"""
    nprng = np.random.default_rng(rng.getrandbits(64))
    cls = cls_for(det)
    if kind == 'quads' and det in ('AGIPD', 'LPD'):
        px = PX[det]
        qp = quad_positions_px(rng, det)
        qm = np.array(qp) * px
        ag, pg = (2, 29) if det == 'AGIPD' else (4, 4)
        kw = {}
        default_unit = px if det == 'AGIPD' else 1e-3
        unit = rng.choice([None, None, px] + UNITS)
        u = default_unit if unit is None else unit
        if rng.random() < .5:
            ag = rng.choice([2, 3, 4.5, rng.uniform(1.5, 6)])
            kw['asic_gap'] = ag * px / u
        if rng.random() < .5:
            pg = rng.choice([2, 10, 29, rng.uniform(2, 30)])
            kw['panel_gap'] = pg * px / u
        if unit is not None:
            kw['unit'] = unit
        given = [(x / u, y / u) for x, y in qm.tolist()]
        form = rng.choice(['list', 'array', 'lists'])
        given = np.array(given) if form == 'array' else [list(g) for g in given] if form == 'lists' else given
        geom = cls.from_quad_positions(given, **kw) if rng.random() < .5 else cls.from_quad_positions(quad_pos=given, **kw)
        L = (agipd_layout if det == 'AGIPD' else lpd_layout)(qm, ag * px, pg * px)
        return geom, L, ('quads', form, tuple(sorted(kw)), unit)
    if kind == 'h5' and det in ('LPD', 'DSSC'):
        mod, tile, quads = h5_params(rng, det, nprng)
        unit = rng.choice([1e-3, 1e-3] + UNITS)
        k = 1e-3 / unit
        path = os.path.join(ctx.dir('g'), 'geo.h5')
        write_h5(path, det, mod * k, tile * k)
        given = (quads * k).tolist() if rng.random() < .5 else quads * k
        if unit == 1e-3 and rng.random() < .6:
            geom = cls.from_h5_file_and_quad_positions(path, given)
        else:
            geom = cls.from_h5_file_and_quad_positions(path, given, unit=unit)
        L = (lpd_file_layout if det == 'LPD' else dssc_file_layout)(mod * k, tile * k, quads * k, unit)
        return geom, L, ('h5', unit)
    if kind in ('quads', 'h5'):
        kind = 'snap'
    L = random_layout(rng, det, kind, nprng)
    style = rng.choice(['plain', 'short', 'res', 'panelres'])
    path = os.path.join(ctx.dir('g'), 'x.geom')
    write_geom(path, L, rng, style)
    return cls.from_crystfel_geom(path), L, ('crystfel', kind, style)


KINDS = ['quads', 'h5', 'snap', 'turned', 'tilted']
