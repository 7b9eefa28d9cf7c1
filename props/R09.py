"""Surfaces of rasters: gradients, shading, polygons, filled crevasses, limits, equality."""
import functools
import itertools
import math

import numpy as np

from symx.runner import H

import osgeo.gdal
import osgeo.ogr
import osgeo.osr

import glimpse
from glimpse import helpers
from props.common import patch_interpolation
from props.H06 import Filters

ASSUMPTIONS = [
    "matplotlib's LightSource.hillshade and GDAL's RasterizeLayer follow their documentation (dy as for rows going south, cells burned whose center is within), cell centers lie 2^-6 cells or more from the edges of polygons",
    "scipy.ndimage's filters follow their documentation",
]
M = 2**-6
osgeo.gdal.PushErrorHandler("CPLQuietErrorHandler")


def raster(S, nx, ny, flip, lo=-9, hi=9, ints=False):
    o = (2.5, -3.0)
    d = [c * (-1 if f else 1) for c, f in zip((1.5, 0.75), flip)]
    Z = (S.ints if ints else S.reals)("z", (ny, nx), lo, hi)
    return glimpse.Raster(Z, x=S.array([o[0], o[0] + nx * d[0]]), y=S.array([o[1], o[1] + ny * d[1]])), Z, o, d


def between(S, got, options, label):
    S.check(S.and_(S.or_(*[got >= v - 1e-9 for v in options]), S.or_(*[got <= v + 1e-9 for v in options])), label)


def gradient(S):
    """The derivatives of planes, and otherwise within the slopes to the cells beside."""
    nx, ny = S.config["size"]
    flip = S.config["flip"]
    r, Z, o, d = raster(S, nx, ny, flip)
    keep = Z.copy()
    gx, gy = r.gradient()
    S.check(gx.shape == (ny, nx) and gy.shape == (ny, nx), "shape")
    for i, j in itertools.product(range(ny), range(nx)):
        sx = [(keep[i, b + 1] - keep[i, b]) / d[0] for b in (j - 1, j) if 0 <= b and b + 1 < nx]
        sy = [(keep[b + 1, j] - keep[b, j]) / d[1] for b in (i - 1, i) if 0 <= b and b + 1 < ny]
        between(S, gx[i, j], sx, "within the slopes in x")
        between(S, gy[i, j], sy, "within the slopes in y")
    S.eq(Z, keep, "values unchanged")
    a, b, c = S.real("a", -4, 4), S.real("b", -4, 4), S.real("c", -4, 4)
    plane = S.array([[a * (o[0] + (j + 0.5) * d[0]) + b * (o[1] + (i + 0.5) * d[1]) + c for j in range(nx)] for i in range(ny)])
    q = glimpse.Raster(plane, x=r.xlim, y=r.ylim)
    gx, gy = q.gradient()
    S.eq(gx, S.array([[a] * nx] * ny), "slope of a plane in x")
    S.eq(gy, S.array([[b] * nx] * ny), "slope of a plane in y")
    S.reach()


class Light:
    """matplotlib.colors.LightSource as documented, without stretching the contrast."""

    S = None

    def __init__(self, azdeg=315, altdeg=45, **kw):
        assert not kw
        self.azdeg, self.altdeg = azdeg, altdeg

    def hillshade(self, elevation, vert_exag=1, dx=1, dy=1, fraction=1.0):
        S = self.S
        zy, zx = np.gradient(elevation * vert_exag, -dy, dx)  # rows go south
        return shade(S, zx, zy, self.azdeg, self.altdeg) * fraction


def shade(S, zx, zy, azdeg, altdeg):
    """The cosine of the angle between the surface's normal and the light."""
    az, alt = math.radians(90 - azdeg), math.radians(altdeg)
    L = (math.cos(az) * math.cos(alt), math.sin(az) * math.cos(alt), math.sin(alt))
    ny, nx = zx.shape
    out = [[None] * nx for _ in range(ny)]
    for i, j in itertools.product(range(ny), range(nx)):
        p, q = zx[i, j], zy[i, j]
        out[i][j] = (L[2] - p * L[0] - q * L[1]) / (1 + p * p + q * q) ** 0.5
    return S.array(out)


def hillshade(S):
    """Intensity is of the surface in map coordinates, lit from the azimuth and altitude."""
    nx, ny = S.config["size"]
    flip = S.config["flip"]
    az, alt, kw = S.config.get("az"), S.config.get("alt"), S.config.get("kw", {})
    plane = S.config.get("plane")
    r, Z, o, d = raster(S, nx, ny, flip)
    if S.symbolic:
        light = type("L", (Light,), dict(S=S))
        S.patch(glimpse.raster.matplotlib.colors, "LightSource", light)
    args = {} if az is None else dict(azimuth=az, altitude=alt)
    keep = Z.copy()
    got = r.hillshade(**args, **kw)
    S.eq(Z, keep, "values unchanged")
    e = kw.get("vert_exag", 1)
    zx = [[None] * nx for _ in range(ny)]
    zy = [[None] * nx for _ in range(ny)]
    for i, j in itertools.product(range(ny), range(nx)):
        a, b = max(j - 1, 0), min(j + 1, nx - 1)
        zx[i][j] = e * (keep[i, b] - keep[i, a]) / ((b - a) * d[0])
        a, b = max(i - 1, 0), min(i + 1, ny - 1)
        zy[i][j] = e * (keep[b, j] - keep[a, j]) / ((b - a) * d[1])
    want = shade(S, S.array(zx), S.array(zy), 315 if az is None else az, 45 if alt is None else alt)
    f = kw.get("fraction", 1.0)
    if S.symbolic:
        S.eq(got, want * f, "illumination")
    else:
        w = np.asarray(want, dtype=float)
        lo, hi = w.min(), w.max()
        w = w * f
        if hi - lo > 1e-6:
            w = (w - lo) / (hi - lo) if f == 1 else (w - w.min()) / (hi - lo)
        S.eq(np.asarray(got, dtype=float), np.clip(w, 0, 1), "illumination", tol=1e-6)
    S.reach()


class Geometry:
    def __init__(self, kind):
        self.kind, self.points, self.parts = kind, [], []

    def AddPoint(self, x, y, z=0):
        self.points.append((x, y))

    AddPoint_2D = AddPoint

    def AddGeometry(self, g):
        self.parts.append(g)


class Feature:
    def __init__(self, defn):
        self.geometry = None

    def SetGeometry(self, g):
        self.geometry = g


class Layer:
    def __init__(self):
        self.features = []

    def GetLayerDefn(self):
        return None

    def CreateFeature(self, f):
        self.features.append(f)


class Source:
    def __init__(self):
        self.layers = []

    def CreateLayer(self, *a, **kw):
        self.layers.append(Layer())
        return self.layers[-1]

    def GetLayer(self, i=0):
        return self.layers[i]


def inside(S, p, ring):
    """Whether p is in the ring (even-odd)."""
    odd = False
    for (x1, y1), (x2, y2) in zip(ring, ring[1:] + ring[:1]):
        crosses = S.or_(S.and_(y1 > p[1], y2 <= p[1]), S.and_(y2 > p[1], y1 <= p[1]))
        t = (p[1] - y1) * (x2 - x1) - (p[0] - x1) * (y2 - y1)
        left = S.or_(S.and_(y2 > y1, t > 0), S.and_(y2 < y1, t < 0))
        hit = S.and_(crosses, left)
        odd = S.or_(S.and_(odd, S.not_(hit)), S.and_(S.not_(odd), hit))
    return odd


class Target:
    def __init__(self, S, nx, ny):
        self.S, self.a = S, [[0] * nx for _ in range(ny)]
        self.t = (0, 1, 0, 0, 0, 1)

    def SetGeoTransform(self, t):
        self.t = t

    def ReadAsArray(self):
        return np.array(self.a, dtype=np.uint8)


class Real:
    """The real module but for what is replaced."""

    def __init__(self, module):
        self.module = module

    def __getattr__(self, name):
        return getattr(self.__dict__["module"], name)


class Gdal(Real):
    """The parts of osgeo used to burn polygons."""

    def __init__(self, S):
        super().__init__(osgeo)
        outer = self

        class ogr(Real):
            wkbLinearRing, wkbPolygon = 2, 3
            Geometry = globals()["Geometry"]
            Feature = globals()["Feature"]

            @staticmethod
            def GetDriverByName(name):
                return type("D", (), dict(CreateDataSource=lambda self, name: Source()))()

        class osr(Real):
            SpatialReference = staticmethod(lambda: None)

        class gdal(Real):
            GDT_Byte = 1

            @staticmethod
            def GetDriverByName(name):
                def create(self, path, nx, ny, bands, kind):
                    assert type(nx) is int and type(ny) is int and bands == 1
                    return Target(S, nx, ny)

                return type("D", (), dict(Create=create))()

            @staticmethod
            def RasterizeLayer(target, bands, layer, burn_values):
                assert bands == [1] and len(burn_values) == 1
                x0, dx, _, y0, _, dy = target.t
                for i, row in enumerate(target.a):
                    for j in range(len(row)):
                        p = (x0 + (j + 0.5) * dx, y0 + (i + 0.5) * dy)
                        for f in layer.features:
                            for ring in f.geometry.parts:
                                if bool(inside(S, p, ring.points)):
                                    row[j] = burn_values[0]
                                    break

        outer.ogr, outer.osr, outer.gdal = ogr(osgeo.ogr), osr(osgeo.osr), gdal(osgeo.gdal)


def polygons(S):
    """Cells whose centers are in a polygon and in no hole."""
    nx, ny = S.config["size"]
    flip = S.config["flip"]
    r = glimpse.Raster(np.zeros((ny, nx)), x=[2.5, 2.5 + nx * (-1.5 if flip[0] else 1.5)], y=[-3.0, -3.0 + ny * (-0.75 if flip[1] else 0.75)])
    o, d = (2.5, -3.0), r.d
    if S.symbolic:
        S.patch(helpers, "osgeo", Gdal(S))
    shapes = {}
    free = 0
    for kind in ("polygons", "holes"):
        for ring in S.config.get(kind, []):
            pts = []
            for p in ring:
                q = []
                for v in p:
                    if isinstance(v, list):  # anywhere between two bounds
                        q.append(S.real("v%d" % free, v[0], v[1]))
                        free += 1
                    elif isinstance(v, str):  # as another
                        q.append(int(v))
                    else:
                        q.append(v)
                pts.append(q)
            for q in pts:
                for k in range(2):
                    if type(q[k]) is int and isinstance(ring[pts.index(q)][k], str):
                        i, axis = divmod(q[k], 2)
                        q[k] = pts[i][axis]
            shapes.setdefault(kind, []).append(pts)
    want = np.zeros((ny, nx), dtype=bool)
    # no center on an edge, nor level with a vertex
    apart = []
    for pts in sum(shapes.values(), []):
        for y in {id(p[1]): p[1] for p in pts}.values():
            apart += [S.abs(y - i - 0.5) >= M for i in range(ny)]
        for (x1, y1), (x2, y2) in zip(pts, pts[1:] + pts[:1]):
            if x1 is x2:
                apart += [S.abs(x1 - j - 0.5) >= M for j in range(nx)]
            elif y1 is not y2:
                for i, j in itertools.product(range(ny), range(nx)):
                    t = (i + 0.5 - y1) * (x2 - x1) - (j + 0.5 - x1) * (y2 - y1)
                    span = S.and_(S.min(y1, y2) <= i + 0.5, i + 0.5 <= S.max(y1, y2))
                    apart.append(S.or_(S.not_(span), S.abs(t) >= M))
    S.assume(S.and_(*apart))
    for i, j in itertools.product(range(ny), range(nx)):
        p = (j + 0.5, i + 0.5)
        into = bool(S.or_(*[inside(S, p, pts) for pts in shapes["polygons"]]))
        out = bool(S.or_(False, *[inside(S, p, pts) for pts in shapes.get("holes", [])]))
        want[i, j] = into and not out
    world = {k: [S.array([[o[0] + x * d[0], o[1] + y * d[1]] for x, y in pts]) for pts in v] for k, v in shapes.items()}
    kept = [w.copy() for w in sum(world.values(), [])]
    got = r.rasterize_polygons(**world)
    S.check(got.shape == (ny, nx), "shape")
    S.check(bool(np.array_equal(np.array(got, dtype=bool), want)), "cells inside")
    for a, b in zip(sum(world.values(), []), kept):
        S.eq(a, b, "polygons unchanged")
    S.reach()


def crevasses(S):
    """Local maxima, then their weighted mean, of the included cells alone."""
    nx, ny = S.config["size"]
    how = S.config["mask"]
    fill = S.config.get("fill", False)
    r, Z, o, d = raster(S, nx, ny, (False, True), 0, 8)
    keep = Z.copy()
    if how == "none":
        inc = np.ones((ny, nx), dtype=bool)
        kw = {}
    elif how == "array":
        inc = np.array(S.config["cells"], dtype=bool)
        kw = dict(mask=S.array(inc.copy()))
    else:
        for i, j in itertools.product(range(ny), range(nx)):
            S.assume(S.abs(Z[i, j] - 2.0) >= M)
        inc = np.array([[bool(keep[i, j] > 2.0) for j in range(nx)] for i in range(ny)])
        S.assume(bool(inc.any()))
        kw = dict(mask=lambda a: a > 2.0)
    if S.symbolic:
        S.patch(helpers.scipy, "ndimage", Filters(S))
    if S.config.get("cached"):
        patch_interpolation(S)
    r.Zf if S.config.get("cached") else None
    params = {} if S.config.get("default") else dict(maximum={"size": 3}, gaussian={"sigma": 1, "truncate": 1})
    r.fill_crevasses(**params, **kw, fill=fill)
    S.eq(Z, keep, "the array given is unchanged")
    got = r.array
    S.check(got.shape == (ny, nx), "shape")
    if S.config.get("default"):
        # windows of 5 cells reach all of them
        top = functools.reduce(S.max, [keep[i, j] for i, j in itertools.product(range(ny), range(nx))])
        if max(nx, ny) <= 3:
            S.eq(got, S.array([[top] * nx] * ny), "the maximum")
        else:
            q = type(r)(keep.copy(), x=r.xlim, y=r.ylim)
            q.fill_crevasses(maximum={"size": 5}, gaussian={"sigma": 5})
            S.eq(got, q.array, "windows of five cells, means over five", tol=1e-9)
        S.reach()
        return
    near = lambda i, j: [(a, b) for a in range(max(i - 1, 0), min(i + 2, ny)) for b in range(max(j - 1, 0), min(j + 2, nx)) if inc[a, b]]
    top = {}
    for i, j in itertools.product(range(ny), range(nx)):
        if inc[i, j] or (fill and near(i, j)):
            top[i, j] = functools.reduce(S.max, [keep[a, b] for a, b in near(i, j)])
    weights = np.array([helpers.scipy.ndimage.gaussian_filter(np.eye(1, ny * nx, k).reshape(ny, nx), sigma=1, truncate=1).ravel() for k in range(ny * nx)]).T if not S.symbolic else MATRIX(ny, nx)
    for i, j in itertools.product(range(ny), range(nx)):
        w = weights[i * nx + j].reshape(ny, nx)
        if not inc[i, j] and not fill:
            S.eq(got[i, j], keep[i, j], "excluded cells are kept")
            continue
        total = sum(float(w[a, b]) for a, b in top if inc[a, b])
        if total:
            S.eq(got[i, j], sum(float(w[a, b]) / total * top[a, b] for a, b in top if inc[a, b]), "the mean of local maxima", tol=1e-9)
    if S.config.get("cached"):
        xy = S.array([[o[0] + 1.5 * d[0], o[1] + 0.5 * d[1]]])
        S.eq(r.sample(xy, order=1), S.array([got[0, 1]]), "sampled from the new values")
    S.reach()


_MATRIX = {}


def MATRIX(ny, nx):
    import scipy.ndimage

    if (ny, nx) not in _MATRIX:
        _MATRIX[ny, nx] = np.array([REAL(np.eye(1, ny * nx, k).reshape(ny, nx), sigma=1, truncate=1).ravel() for k in range(ny * nx)]).T
    return _MATRIX[ny, nx]


import scipy.ndimage as _nd

REAL = _nd.gaussian_filter


def limits(S):
    """Value limits and the box leave out missing values; copies are equal, others not."""
    nx, ny = S.config["size"]
    flip = S.config["flip"]
    r, Z, o, d = raster(S, nx, ny, flip, ints=S.config.get("ints", False))
    n = S.config.get("missing", 0)
    gone = set()
    for k in range(n):
        m = S.concrete(S.int("m%d" % k, 0, nx * ny - 1))
        gone.add(m)
        Z[m // nx, m % nx] = np.nan
    vals = [Z[k // nx, k % nx] for k in range(nx * ny) if k not in gone]
    lo, hi = functools.reduce(S.min, vals), functools.reduce(S.max, vals)
    S.eq(r.zlim, S.array([lo, hi]), "value limits")
    x, y = [o[0], o[0] + nx * d[0]], [o[1], o[1] + ny * d[1]]
    S.eq(r.box3d, S.array([min(x), min(y), lo, max(x), max(y), hi]), "box")
    if not gone:
        S.check(bool(r == r.copy()), "equal to its copy")
        q = r.copy()
        i, j = S.concrete(S.int("i", 0, ny - 1)), S.concrete(S.int("j", 0, nx - 1))
        q.array[i, j] = S.int("w", -9, 9) if S.config.get("ints") else S.real("w", -9, 9)
        if bool(q.array[i, j] == Z[i, j]):
            S.check(bool(r == q), "equal values")
        else:
            S.check(not bool(r == q), "another value")
            S.check(bool(r == r.copy()), "copies are separate")
    S.reach()


def equality(S):
    """Rasters are equal where their limits and values are."""
    base = S.config.get("base", (0.0, 0.0))
    r, Z, o, d = raster(S, 2, 2, (False, True))
    o = [x + b for x, b in zip(o, base)]
    if any(base):
        r = glimpse.Raster(Z, x=S.array([o[0], o[0] + 2 * d[0]]), y=S.array([o[1], o[1] + 2 * d[1]]))
    lim = [[S.real("%s%d" % (a, k), -4, 4) + b for k in range(2)] for a, b in zip("xy", base)]
    for k in range(2):
        S.assume(S.abs(lim[k][0] - lim[k][1]) >= M)
    ref = [[o[0], o[0] + 2 * d[0]], [o[1], o[1] + 2 * d[1]]]
    same = True
    for k in range(2):
        for a in range(2):
            if S.config["which"] == [k, a]:
                S.assume(S.or_(lim[k][a] == ref[k][a], S.abs(lim[k][a] - ref[k][a]) >= M))
                same = S.same(lim[k][a], ref[k][a]) if not S.symbolic else lim[k][a] == ref[k][a]
            else:
                lim[k][a] = ref[k][a]
    if S.abs(lim[0][0] - lim[0][1]) < M or S.abs(lim[1][0] - lim[1][1]) < M:
        S.assume(False)
    q = glimpse.Raster(Z.copy(), x=S.array(lim[0]), y=S.array(lim[1]))
    S.check(bool(r == q) == bool(same), "limits")
    S.check(bool(r.grid == q.grid) == bool(same), "limits of grids")
    for shape in ((1, 2), (2, 1), (1, 1), (3, 2)):
        w = glimpse.Raster(S.array([[Z[min(i, 1), min(j, 1)] for j in range(shape[1])] for i in range(shape[0])]), x=r.xlim, y=r.ylim)
        S.check(not bool(r == w), "another size")
        S.check(not bool(r.grid == w.grid), "another size of grid")
    S.reach()


FLIPS = [(False, True), (False, False), (True, True), (True, False)]


def rect(x, y, u, v):
    """A rectangle whose sides are anywhere within the bounds."""
    return [[x, y], [u, "1"], ["2", v], ["0", "5"]]


HARNESSES = [
    H("gradient", gradient, [dict(size=s, flip=f) for f in FLIPS for s in ((2, 3), (3, 2))] + [dict(size=(4, 4), flip=(False, True))], thorough=[dict(size=(5, 5), flip=f) for f in FLIPS],
      bounds="rasters up to 4x4 cells, either direction of each axis"),
    H("hillshade", hillshade, [dict(size=(2, 2), flip=f) for f in FLIPS] + [dict(size=(2, 3), flip=f, az=200, alt=30) for f in FLIPS[:2]] + [dict(size=(3, 2), flip=(False, True), az=60, alt=70, kw=dict(vert_exag=2.0, fraction=0.5)), dict(size=(2, 2), flip=(False, True), az=0, alt=0, kw=dict(fraction=2.0))],
      bounds="rasters of up to 3x2 cells, 4 positions of the light"),
    H("polygons", polygons, [dict(size=(3, 3), flip=FLIPS[0], polygons=[rect([0, 1.5], [0, 1.5], [1.5, 3], [1.5, 3])])]
      + [dict(size=(2, 3), flip=f, polygons=[rect([0, 1], 0.25, [1, 2], [1.5, 3])]) for f in FLIPS[1:]]
      + [dict(size=(3, 2), flip=FLIPS[0], polygons=[rect([-2, 1], -0.75, [1, 5], 2.25)], holes=[rect([0, 1.25], 0.25, [1.25, 3], 1.75)]),
         dict(size=(3, 3), flip=FLIPS[0], polygons=[rect([0, 1], 0.25, [1, 2], 1.75), rect([0.75, 2], 0.75, 2.75, [1, 3])]),
         dict(size=(3, 3), flip=FLIPS[2], polygons=[rect(0.25, 0.25, 2.75, 2.75)], holes=[rect([0, 1], 0.25, [1, 2], 1.75), rect([0.75, 2], 0.75, 2.75, [1, 3])]),
         dict(size=(3, 3), flip=FLIPS[0], polygons=[[[0.25, 0.25], [[0.0, 3.0], 0.75], [1.75, 2.75]]]),
         dict(size=(3, 2), flip=FLIPS[3], polygons=[[[0.25, 0.25], [2.75, 0.25], [[0.0, 3.0], [0.75, 1.75]]]]),
         dict(size=(3, 3), flip=FLIPS[0], polygons=[[[0.25, 0.25], [2.75, 0.25], [[1.5, 2.75], 1.25], [2.75, 2.75], [0.25, 2.75]]])],
      thorough=[dict(size=(3, 3), flip=f, polygons=[rect([0, 1.5], [0, 1.5], [1.5, 3], [1.5, 3])]) for f in FLIPS[1:]],
      bounds="grids up to 3x3, up to 2 polygons and 2 holes of 3 to 5 vertices, partly out of the grid"),
    H("crevasses", crevasses, [dict(size=(3, 2), mask="none"), dict(size=(3, 3), mask="none", default=True), dict(size=(6, 1), mask="none", default=True), dict(size=(2, 2), mask="call"), dict(size=(2, 2), mask="call", fill=True), dict(size=(3, 2), mask="none", cached=True)]
      + [dict(size=(3, 2), mask="array", cells=c, fill=f) for f in (False, True) for c in ([[1, 0, 1], [1, 1, 0]], [[0, 1, 1], [1, 0, 0]], [[1, 0, 0], [0, 0, 0]])],
      bounds="rasters of up to 3x3 cells, 3 masks given and those of a threshold"),
    H("limits", limits, [dict(size=(2, 2), flip=f) for f in FLIPS] + [dict(size=(3, 2), flip=f, missing=m) for f in FLIPS[:2] for m in (1, 2)] + [dict(size=(2, 2), flip=(False, True), ints=True)],
      bounds="rasters up to 3x2 cells, up to 2 of them missing"),
    H("equality", equality, [dict(which=[k, a], base=b) for k in range(2) for a in range(2) for b in ((0.0, 0.0), (524288.0, 4194304.0))], bounds="2x2 cells, near to and far from the origin, one limit anywhere, other sizes"),
]
