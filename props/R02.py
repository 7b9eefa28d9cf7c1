"""Histories of grids and rasters: cached coordinates, interpolants, shared memory."""
import itertools

import numpy as np
import scipy.ndimage

from symx.runner import H

import glimpse
from props.common import patch_interpolation
from props.H06 import _linear

ZOOM = _linear(scipy.ndimage.zoom)


class Model:
    """What a raster should be: origin, cell size, values."""

    def __init__(self, o, d, Z, t=None, crs=None):
        self.o, self.d, self.Z, self.t, self.crs = tuple(o), tuple(d), [list(r) for r in Z], t, crs

    @property
    def size(self):
        return len(self.Z[0]), len(self.Z)

    def but(self, **k):
        v = dict(o=self.o, d=self.d, Z=self.Z, t=self.t, crs=self.crs)
        v.update(k)
        return Model(**v)

    def sub(self, i, j):
        return self.but(o=(self.o[0] + j.start * self.d[0], self.o[1] + i.start * self.d[1]),
                        Z=[row[j] for row in self.Z[i]])


def same(S, r, m, what, sampled=True):
    nx, ny = m.size
    S.eq(r.size, S.array([nx, ny]), what + ": size")
    S.check(tuple(r.shape) == (ny, nx), what + ": shape")
    for k, (lim, n) in enumerate(((r.xlim, nx), (r.ylim, ny))):
        S.eq(lim, S.array([m.o[k], m.o[k] + n * m.d[k]]), what + ": limits")
    S.eq(r.d, S.array(m.d), what + ": cell size")
    x = S.array([m.o[0] + (j + 0.5) * m.d[0] for j in range(nx)])
    y = S.array([m.o[1] + (i + 0.5) * m.d[1] for i in range(ny)])
    S.eq(r.x, x, what + ": x")
    S.eq(r.y, y, what + ": y")
    S.eq(r.X, S.array([[x[j] for j in range(nx)] for i in range(ny)]), what + ": X")
    S.eq(r.Y, S.array([[y[i] for j in range(nx)] for i in range(ny)]), what + ": Y")
    if m.Z[0][0] is None:
        return
    S.eq(r.array, S.array(m.Z), what + ": values")
    S.check(r.datetime == m.t, what + ": datetime")
    S.check(r.crs == m.crs, what + ": coordinate reference system")
    if sampled:
        i, j = ny - 1, nx - 1
        q = [(j + 0.5, i + 0.5)] + ([(j, i + 0.5)] if nx > 1 else [])
        out = r.sample(S.array([[m.o[0] + a * m.d[0], m.o[1] + b * m.d[1]] for a, b in q]))
        S.eq(out[0], m.Z[i][j], what + ": sample at a center")
        if nx > 1:
            S.eq(out[1], (m.Z[i][j] + m.Z[i][j - 1]) / 2, what + ": sample between centers")


def handed(r):
    """Coordinates given to the caller, and what they were."""
    out = [r.x, r.y, r.X, r.Y, r.xlim, r.ylim, r.d, r.min, r.max]
    return [(v, v.copy()) for v in out]


def kept(S, pairs):
    for v, w in pairs:
        S.eq(v, w, "coordinates handed out before stay as they were")


def make(S, nx, ny, flip=(False, True), tag="", ints=False):
    o, d, lim = [], [], []
    for k, n in enumerate((nx, ny)):
        a = S.concrete(S.int("%so%d" % (tag, k), -1, 1)) if ints else S.real("%so%d" % (tag, k), -8, 8) + S.config.get("base", 0)
        c = [1, 2][k] * (-1 if flip[k] else 1) if ints else [1.5, 0.75][k] * (-1 if flip[k] else 1)
        lim.append(S.array([a, a + c * n]))
        o.append(a)
        d.append(c * 1.0)
    Z = S.ints(tag + "z", (ny, nx), -9, 9) if ints else S.reals(tag + "z", (ny, nx), -9, 9)
    import datetime

    t = datetime.datetime(2020, 1, 2)
    m = Model(o, d, Z.tolist() if not S.symbolic else [[Z[i, j] for j in range(nx)] for i in range(ny)], t, 4326)
    if S.config.get("how") == "x":
        lim = [S.array([o[k] + (i + 0.5) * d[k] for i in range(n)]) for k, n in enumerate((nx, ny))]
    r = glimpse.Raster(Z, x=lim[0], y=lim[1], datetime=t, crs=4326)
    return r, m, (Z, lim)


def history(S):
    """After any sequence of operations, all derived coordinates are those of the size and limits."""
    nx, ny = S.config.get("size", (3, 3))
    patch_interpolation(S)
    if S.symbolic:
        S.patch(glimpse.raster.scipy, "ndimage", type("N", (), dict(zoom=staticmethod(ZOOM(S)))))
    ints = S.config.get("ints", False)
    r, m, given = make(S, nx, ny, ints=ints)
    keep = [given[0].copy()] + [v.copy() for v in given[1]]
    others, out = [], []
    edited = False
    for n, op in enumerate(S.config["ops"]):
        tag = "%d" % n
        mx, my = m.size
        if n and not ints:
            out += handed(r)
        if op == "touch":
            r.x, r.y, r.X, r.Y
            same(S, r, m, "state")
        elif op == "shift":
            dx, dy, dz = S.real("dx" + tag, -4, 4), S.real("dy" + tag, -4, 4), S.real("dz" + tag, -4, 4)
            r.shift(dx, dy, dz)
            m = m.but(o=(m.o[0] + dx, m.o[1] + dy), Z=[[z + dz for z in row] for row in m.Z])
        elif op == "shiftx":
            dx = S.real("dx" + tag, -4, 4)
            r.shift(dx=dx)
            m = m.but(o=(m.o[0] + dx, m.o[1]))
        elif op == "shiftz":
            dz = S.real("dz" + tag, -4, 4)
            r.shift(dz=dz)
            m = m.but(Z=[[z + dz for z in row] for row in m.Z])
        elif op == "crop":
            # from within the second column to within the last; the first row
            f, g = S.real("f" + tag, 0.125, 0.875), S.real("g" + tag, 0.125, 0.875)
            r.crop(xlim=(m.o[0] + (1 + f) * m.d[0], m.o[0] + (mx - 1 + g) * m.d[0]),
                   ylim=(m.o[1] + 0.25 * m.d[1], m.o[1] + (my - 1 - g) * m.d[1]))
            m = m.sub(slice(0, my - 1), slice(1, mx))
        elif op == "cropz":
            r.crop(zlim=(-5, 5))
            m = m.but(Z=[[z if -5 <= z <= 5 else np.nan for z in row] for row in m.Z])
        elif op == "resize":
            r.resize(2)
            m = m.but(d=(m.d[0] / 2, m.d[1] / 2), Z=[[None] * 2 * mx] * 2 * my)
        elif op == "fill":
            v = S.int("v" + tag, -9, 9)
            r.fill_circle((m.o[0] + 0.5 * m.d[0], m.o[1] + 0.5 * m.d[1]), abs(m.d[0]) * 1, v)
            edited = True
            m = m.but(Z=[[v if i <= 1 and j <= 1 else m.Z[i][j] for j in range(mx)] for i in range(my)])
        elif op == "array":
            Z = S.reals("w" + tag, (my, mx), -9, 9)
            r.array = Z.copy()
            m = m.but(Z=[[Z[i, j] for j in range(mx)] for i in range(my)])
        elif op == "bigger":
            Z = S.reals("w" + tag, (my + 1, mx), -9, 9)
            r.array = Z.copy()
            m = m.but(d=(m.d[0], m.d[1] * my / (my + 1)), Z=[[Z[i, j] for j in range(mx)] for i in range(my + 1)])
        elif op == "xlim":
            a = S.real("a" + tag, -8, 8)
            r.xlim = S.array([a, a + 0.5 * mx])
            m = m.but(o=(a, m.o[1]), d=(0.5, m.d[1]))
        elif op == "nudge":
            # new limits close to the old
            dx, dy = S.real("dx" + tag, 0.25, 1), S.real("dy" + tag, -1, -0.25)
            r.xlim, r.ylim = r.xlim + dx, r.ylim + dy
            m = m.but(o=(m.o[0] + dx, m.o[1] + dy))
        elif op == "flipx":
            r.xlim = r.xlim[::-1]
            m = m.but(o=(m.o[0] + mx * m.d[0], m.o[1]), d=(-m.d[0], m.d[1]))
        elif op == "flipy":
            r.ylim = S.array([r.ylim[1], r.ylim[0]])
            m = m.but(o=(m.o[0], m.o[1] + my * m.d[1]), d=(m.d[0], -m.d[1]))
        elif op == "copy":
            others.append((r, m))
            r = r.copy()
        elif op == "slice":
            others.append((r, m))
            r = r[: my - 1, 1:]
            m = m.sub(slice(0, my - 1), slice(1, mx))
        elif op == "grid":
            g = r.grid
            dx = S.real("dx" + tag, -4, 4)
            g.shift(dx=dx)
            g.resize(2)
            gm = m.but(o=(m.o[0] + dx, m.o[1]), d=(m.d[0] / 2, m.d[1] / 2), Z=[[None] * 2 * mx] * 2 * my)
            same(S, g, gm, "grid of a raster")
            S.check(g.crs == m.crs, "grid of a raster: coordinate reference system")
        elif op == "resample":
            # the middle of the raster, at another resolution
            g = glimpse.Grid((2, 2), x=S.array([m.o[0] + 0.5 * m.d[0], m.o[0] + 1.5 * m.d[0]]), y=S.array([m.o[1] + 0.5 * m.d[1], m.o[1] + 2.5 * m.d[1]]))
            g.x, g.y
            r.resample(g)
            new = []
            for b in (0, 1):
                row = []
                for a in (0.25, 0.75):
                    row.append(m.Z[b][0] * (1 - a) / 2 + m.Z[b][1] * a / 2 + m.Z[b + 1][0] * (1 - a) / 2 + m.Z[b + 1][1] * a / 2)
                new.append(row)
            m = m.but(o=(m.o[0] + 0.5 * m.d[0], m.o[1] + 0.5 * m.d[1]), d=(m.d[0] / 2, m.d[1]), Z=new)
            g.shift(dx=1, dy=1)
        elif op == "data":
            Z = [[np.nan if i == 0 or j == mx - 1 else m.Z[i][j] for j in range(mx)] for i in range(my)]
            r.array = S.array(Z)
            r.crop_to_data()
            m = m.but(Z=Z).sub(slice(1, my), slice(0, mx - 1))
        same(S, r, m, "state", sampled=op == S.config["ops"][-1] and op != "cropz")
    for q, w in others:
        same(S, q, w, "raster left behind")
    kept(S, out)
    if not edited:
        S.eq(given[0], keep[0], "array given by the caller unchanged")
    for a, b in zip(given[1], keep[1:]):
        S.eq(a, b, "coordinates given by the caller unchanged")
    S.reach()


def grids(S):
    """Grids alone: shift, resize, copy, limits, in any order."""
    nx, ny = 3, 2
    base = S.config.get("base", 0)
    o = [base + S.real("o0", -8, 8), base + S.real("o1", -8, 8)]
    d = [1.5, -0.75]
    lim = [S.array([o[k], o[k] + n * d[k]]) for k, n in enumerate((nx, ny))]
    g = glimpse.Grid(S.config["size"], x=lim[0], y=lim[1], crs=4326)
    m = Model(o, d, [[None] * nx] * ny)
    others, out = [], []
    for n, op in enumerate(S.config["ops"]):
        mx, my = m.size
        if n:
            out += handed(g)
        if op == "touch":
            same(S, g, m, "state")
        elif op == "shift":
            dx, dy = S.real("dx%d" % n, -4, 4), S.real("dy%d" % n, -4, 4)
            g.shift(dx, dy)
            m = m.but(o=(m.o[0] + dx, m.o[1] + dy))
        elif op == "resize":
            g.resize(2)
            m = m.but(d=(m.d[0] / 2, m.d[1] / 2), Z=[[None] * 2 * mx] * 2 * my)
        elif op == "size":
            g.size = (mx + 1, my)
            m = m.but(d=(m.d[0] * mx / (mx + 1), m.d[1]), Z=[[None] * (mx + 1)] * my)
        elif op == "copy":
            others.append((g, m))
            g = g.copy()
            S.check(g.crs == 4326, "coordinate reference system of copy")
        elif op == "ylim":
            a = S.real("a%d" % n, -8, 8)
            g.ylim = S.array([a, a + 0.5 * my])
            m = m.but(o=(m.o[0], a), d=(m.d[0], 0.5))
        elif op == "nudge":
            dx, dy = S.real("dx%d" % n, 0.25, 1), S.real("dy%d" % n, -1, -0.25)
            g.xlim, g.ylim = g.xlim + dx, g.ylim + dy
            m = m.but(o=(m.o[0] + dx, m.o[1] + dy))
        elif op == "flip":
            g.xlim, g.ylim = g.xlim[::-1], g.ylim[::-1]
            m = m.but(o=tuple(m.o[k] + m.size[k] * m.d[k] for k in range(2)), d=(-m.d[0], -m.d[1]))
        elif op == "scale":
            # any scale, rounding the size
            k = S.real("k%d" % n, 0.5, 1.75)
            for v in (mx, my):
                S.assume(S.and_(v * k + 0.5 - S.floor(v * k + 0.5) >= 2**-12, S.floor(v * k + 0.5) + 1 - v * k - 0.5 >= 2**-12))
            size = [int(S.concrete(S.floori(v * k + 0.5))) for v in (mx, my)]
            g.resize(k)
            m = m.but(d=tuple(m.d[i] * m.size[i] / size[i] for i in range(2)), Z=[[None] * size[0]] * size[1])
        same(S, g, m, "state")
    kept(S, out)
    for q, w in others:
        same(S, q, w, "grid left behind")
    S.eq(lim[0], S.array([o[0], o[0] + nx * d[0]]), "limits given by the caller unchanged")
    S.reach()


# as large as projected coordinates
FAR = 524288.0
QUICK = [
    ("touch", "shift", "touch"), ("touch", "shiftz", "touch"), ("touch", "shiftx", "shiftx"), ("touch", "crop", "shift"),
    ("copy", "shift"), ("touch", "copy", "shift"), ("slice", "shift"), ("touch", "slice", "shiftx"), ("grid",), ("touch", "grid", "touch"),
    ("array", "touch"), ("touch", "array"), ("touch", "bigger"), ("touch", "xlim", "touch"), ("resample", "shift"), ("touch", "resample", "touch"),
    ("data", "shift"), ("touch", "data"), ("touch", "resize"), ("copy", "array"), ("slice", "slice"), ("crop", "touch", "shift", "copy"), ("touch", "crop"),
    ("copy", "resample", "shift"), ("shift", "crop"), ("touch", "flipx", "touch"), ("touch", "flipy", "shift"), ("flipy", "crop"), ("copy", "flipx"),
]
INTS = [("shift",), ("touch", "shift"), ("touch", "fill"), ("touch", "shiftz", "touch"), ("copy", "fill"), ("cropz",), ("touch", "cropz"), ("crop",), ("grid",)]
OPS = ("touch", "shift", "shiftz", "crop", "array", "xlim", "copy", "slice", "grid", "resample", "data", "flipx", "flipy")
GOPS = ("touch", "shift", "resize", "size", "copy", "ylim", "flip", "scale")
# the second operation needs a larger raster than the first leaves
SMALL = [("resample", "crop"), ("resample", "resample")]
HARNESSES = [
    H("history", history, [dict(ops=o) for o in QUICK] + [dict(ops=("touch", "shift", "touch"), how="x"), dict(ops=("copy", "shift"), how="x"), dict(ops=("slice", "shift"), how="x")]
      + [dict(ops=o, base=FAR) for o in (("touch", "nudge", "touch"), ("touch", "shift", "touch"), ("touch", "crop", "nudge"))]
      + [dict(ops=o, ints=True, size=(3, 3) if "crop" in o else (2, 2) if "cropz" in o else (3, 2)) for o in INTS],
      thorough=[dict(ops=o, size=(4, 4)) for o in itertools.product(OPS, repeat=2) if o not in SMALL],
      bounds="rasters up to 4x4 and sequences of operations as listed, at any position near zero or far from it, with any values and shifts"),
    H("grids", grids, [dict(ops=o, size=s) for o in itertools.product(GOPS, repeat=2) for s in ((3, 2),)] + [dict(ops=("copy", "resize"), size=[3, 2])]
      + [dict(ops=o, size=(3, 2), base=FAR) for o in (("touch", "nudge"), ("nudge", "nudge"), ("touch", "flip"), ("touch", "shift"))],
      thorough=[dict(ops=o, size=(3, 2)) for o in itertools.product(GOPS, repeat=3)], bounds="3x2 grids at any position, all pairs (thorough: triples) of 8 operations, any scale in [1/2, 7/4]"),
]
