"""Interpolation between rasters in time (or any coordinate)."""
import datetime
import itertools
import os
import shutil
import tempfile

import numpy as np
import scipy.ndimage

from symx.runner import H

import glimpse
from glimpse import Raster, RasterInterpolant
from props.common import patch_interpolation
from props.H06 import _linear
from props.R03 import File

ZOOM = _linear(scipy.ndimage.zoom)
ASSUMPTIONS = []


def stubs(S):
    patch_interpolation(S)
    if S.symbolic:
        S.patch(glimpse.raster.scipy, "ndimage", type("N", (), dict(zoom=staticmethod(ZOOM(S)))))

FAR = (524288.0, 4194304.0)


def make(S, tag, nx, ny, o=(0.0, 4.0), d=(1.0, -1.0), lo=-8, hi=8):
    Z = S.reals(tag, (ny, nx), lo, hi)
    return Raster(Z.copy(), x=S.array([o[0], o[0] + nx * d[0]]), y=S.array([o[1], o[1] + ny * d[1]])), Z


class disk:
    """Raster files: in memory for the solver, on disk (with GDAL) when replayed."""

    def __init__(self, S, data):
        self.S, self.data = S, data

    def __enter__(self):
        S = self.S
        if S.symbolic:
            files = {n + ".tif": File(S, Z, t, None) for n, (Z, t) in self.data.items()}
            S.patch(glimpse.raster.osgeo.gdal, "Open", lambda path, mode=None: files[path])
            S.patch(glimpse.raster, "sharedmem", type("M", (), dict(copy=staticmethod(lambda a: a.copy()))))
            return {n: n + ".tif" for n in self.data}
        self.dir = tempfile.mkdtemp()
        paths = {}
        for n, (Z, t) in self.data.items():
            paths[n] = os.path.join(self.dir, n + ".tif")
            glimpse.helpers.write_raster(Z, paths[n], transform=[float(v) for v in t])
        return paths

    def __exit__(self, *e):
        if not self.S.symbolic:
            shutil.rmtree(self.dir)


def coords(S, n, t):
    """Distinct coordinates of rasters and one between, at, or beyond them."""
    if t:
        x = [S.datetime("x%d" % i, 0, 10**6, unit=60 * 10**6) for i in range(n)]
        q = S.datetime("q", -10**5, 11 * 10**5, unit=60 * 10**6)
        num = lambda v: S.us(v) / 60e6
        gap = 1
    else:
        x = [S.real("x%d" % i, -8, 8) for i in range(n)]
        q = S.real("q", -9, 9)
        num = lambda v: v
        gap = 2**-3
    for i in range(n):
        for j in range(i):
            S.assume(S.or_(num(x[i]) - num(x[j]) >= gap, num(x[j]) - num(x[i]) >= gap))
    return x, q, num


def nearest(S):
    """The rasters on either side, in order; or the nearest two, in order."""
    n = S.config["n"]
    x, q, num = coords(S, n, S.config["time"])
    d = [num(v) - num(q) for v in x]
    ri = RasterInterpolant([0] * n, x=x)
    before, after = S.or_(*[v <= 0 for v in d]), S.or_(*[v >= 0 for v in d])
    if S.and_(before, after):
        i, j = ri.nearest(q)
        S.check(S.and_(d[i] <= 0, d[j] >= 0), "on either side")
        for k in range(n):
            S.check(S.or_(d[k] <= d[i], d[k] >= d[j]), "none between")
        # at a raster
        for k in range(n):
            S.check(S.implies(d[k] == 0, i == k and j == k), "the raster itself")
    else:
        S.raises(ValueError, lambda: ri.nearest(q), "beyond the rasters")
    for a, b in itertools.combinations(range(n), 2):
        # no ties of distance
        S.assume(S.or_(S.abs(d[a]) - S.abs(d[b]) >= 2**-12, S.abs(d[b]) - S.abs(d[a]) >= 2**-12))
    i, j = ri.nearest(q, extrapolate=True)
    S.check(d[i] < d[j], "in order")
    for k in range(n):
        S.check(k in (i, j) or S.and_(S.abs(d[k]) > S.abs(d[i]), S.abs(d[k]) > S.abs(d[j])), "the two nearest")
    S.reach()


def between(S):
    """Linear between (or beyond) two rasters, with propagated uncertainties."""
    stubs(S)
    nx, ny = 2, 2
    a, A = make(S, "a", nx, ny)
    b, B = make(S, "b", nx, ny)
    x, q, num = coords(S, 2, S.config["time"])
    if S.config["time"]:
        x = [datetime.datetime(2020, 1, 1, 12), datetime.datetime(2020, 3, 2, 0, 0, 32)]
    S.assume(num(x[0]) < num(x[1]))
    ext = S.config.get("extrapolate", False)
    if ext:
        # beyond the last, or before the first
        e = S.real("beyond", 2**-6, 8)
        x = [1.0, 3.0]
        q = x[1] + e if ext == "after" else x[0] - e
    else:
        S.assume(S.and_(num(q) > num(x[0]), num(q) < num(x[1])))
    sig = S.config["sigma"]
    sa, SA = make(S, "sa", nx, ny, lo=0, hi=4)
    sb, SB = make(S, "sb", nx, ny, lo=0, hi=4)
    if sig == "number":
        v, w = S.real("v", 0, 4), S.real("w", 0, 4)
        sigmas = [v, w]
        SA, SB = S.array([[v] * nx] * ny), S.array([[w] * nx] * ny)
    elif sig == "mixed":
        v = S.real("v", 0, 4)
        sigmas = [v, sb] if S.config["first"] else [sb, v]
        SV = S.array([[v] * nx] * ny)
        SA, SB = (SV, SB) if S.config["first"] else (SB, SV)
    elif sig == "none":
        sigmas = None
        SA = SB = S.array([[0.0] * nx] * ny)
    else:
        sigmas = [sa, sb]
    order = S.config.get("order", (0, 1))
    means = [(a, b)[k] for k in order]
    if sigmas:
        sigmas = [sigmas[k] for k in order]
    ri = RasterInterpolant(means, sigmas=sigmas, x=[x[k] for k in order])
    m, s = ri(q, return_sigma=True, extrapolate=bool(ext))
    f = (num(q) - num(x[0])) / (num(x[1]) - num(x[0]))
    near = S.min(S.abs(num(q) - num(x[0])), S.abs(num(q) - num(x[1]))) / (num(x[1]) - num(x[0]))
    if ext:
        near = e / (x[1] - x[0])
    S.check(tuple(m.shape) == (ny, nx) and tuple(s.shape) == (ny, nx), "shape")
    for i, j in itertools.product(range(ny), range(nx)):
        S.eq(m.array[i, j], A[i, j] + (B[i, j] - A[i, j]) * f, "linear in the coordinate")
        want = SA[i, j] ** 2 + f * f * (SA[i, j] ** 2 + SB[i, j] ** 2) + ((B[i, j] - A[i, j]) * near / 3) ** 2
        S.check(s.array[i, j] >= 0, "standard deviation not negative")
        if not S.config["time"]:
            S.eq(s.array[i, j] ** 2, want, "propagated variance", tol=1e-4)
    for r in (m, s):
        S.eq(r.xlim, a.xlim, "limits in x")
        S.eq(r.ylim, a.ylim, "limits in y")
        if S.config["time"]:
            S.eq(S.us(r.datetime), S.us(q), "datetime")
        else:
            S.check(r.datetime is None, "no datetime")
    S.eq(a.array, A, "first raster unchanged")
    S.eq(b.array, B, "second raster unchanged")
    S.reach()


def at(S):
    """At the coordinate of a raster, that raster."""
    stubs(S)
    n = 3
    x, _, num = coords(S, n, S.config["time"])
    rs = [make(S, "z%d" % k, 2, 2) for k in range(n)]
    sg = S.real("s", 0, 4)
    ri = RasterInterpolant([r for r, _ in rs], sigmas=[sg] * n, x=x)
    k = S.config["k"]
    m, s = ri(x[k], return_sigma=True)
    S.eq(m.array, rs[k][1], "the raster itself")
    S.eq(s.array, S.array([[sg] * 2] * 2), "its own uncertainty")
    S.reach()


def extents(S):
    """Rasters of different extents: the values where they intersect (and within bounds given)."""
    stubs(S)
    bx, by = S.config.get("base", (0.0, 0.0))
    a, A = make(S, "a", 4, 2 if S.config.get("zlim") else 3, o=(bx, by + 3.0))
    b, B = make(S, "b", 3, 2 if S.config.get("zlim") else 3, o=(bx + 1.0, by + 4.0))
    f = S.real("q", 2**-6, 1 - 2**-6)
    ri = RasterInterpolant([a, b], x=[0.0, 1.0])
    kw, cols = {}, [1, 2, 3]
    if S.config.get("crop"):
        u = S.real("u", 2**-6, 1 - 2**-6)
        kw, cols = dict(xlim=(bx + 1 + u, bx + 9)), [1, 2, 3]
        if S.config["crop"] == 2:
            kw, cols = dict(xlim=(bx + 9, bx + 2 + u)), [2, 3]
    if S.config.get("zlim"):
        kw["zlim"] = (-4, 4)
        for M in (A, B):
            for v in M.flat:
                S.assume(S.or_(S.abs(v) <= 4 - 2**-6, S.abs(v) >= 4 + 2**-6))
    if S.config.get("fun"):
        c = S.real("c", -2, 2)
        kw["fun"], kw["by"] = (lambda raster, by: raster.shift(dz=by)), c
    else:
        c = 0.0
    m = ri(f, **kw)
    rows = [0] if S.config.get("zlim") else [0, 1]
    want = []
    for i in rows:
        row = []
        for j in cols:
            p, q = A[i, j] + c, B[i + 1, j - 1] + c
            if S.config.get("zlim"):
                ok = S.and_(*[S.and_(v >= -4, v <= 4) for v in (p, q)])
                row.append(p + (q - p) * f if ok else np.nan)
            else:
                row.append(p + (q - p) * f)
        want.append(row)
    S.eq(m.array, S.array(want), "values where rasters intersect")
    S.eq(m.xlim, S.array([bx + cols[0], bx + cols[-1] + 1.0]), "limits in x")
    S.eq(m.ylim, S.array([by + 3.0, by + 3.0 - len(rows)]), "limits in y")
    for r, Z, o in ((a, A, (bx, by + 3.0)), (b, B, (bx + 1.0, by + 4.0))):
        S.eq(r.array, Z, "rasters unchanged")
        S.eq(r.xlim, S.array([o[0], o[0] + Z.shape[1]]), "limits of rasters unchanged")
    S.reach()


def numbers(S):
    """A number is a raster with that value everywhere."""
    stubs(S)
    a, A = make(S, "a", 3, 2, o=(0.0, 2.0))
    v = S.real("v", -8, 8)
    f = S.real("q", 2**-6, 1 - 2**-6)
    means = [v, a] if S.config["first"] else [a, v]
    m, s = RasterInterpolant(means, sigmas=[1, 2], x=[0.0, 1.0])(f, return_sigma=True)
    w = 1 - f if S.config["first"] else f
    for i, j in itertools.product(range(2), range(3)):
        S.eq(m.array[i, j], A[i, j] * (1 - w) + v * w, "values")
    S.check(tuple(s.shape) == (2, 3), "shape of uncertainty")
    near = S.min(f, 1 - f)
    for i, j in itertools.product(range(2), range(3)):
        S.eq(s.array[i, j] ** 2, 1 + 5 * f * f + ((A[i, j] - v) * near / 3) ** 2, "uncertainty", tol=1e-4)
    S.eq(m.xlim, a.xlim, "limits in x")
    S.eq(a.array, A, "raster unchanged")
    both = RasterInterpolant([v, v + 1], x=[0.0, 1.0])(f)
    S.eq(both.array, S.array([[v + f]]), "two numbers")
    S.reach()


def files(S):
    """Paths are rasters of those files, cropped to the limits asked for; numbers are uncertain everywhere."""
    stubs(S)
    A, B, SA = S.reals("a", (3, 4), -8, 8), S.reals("b", (3, 3), -8, 8), S.reals("sa", (3, 4), 0, 4)
    v = S.real("v", 0, 4)
    f = S.real("q", 2**-6, 1 - 2**-6)
    bx, by = S.config.get("base", (0.0, 0.0))
    kw, cols, rows = {}, [1, 2, 3], [0, 1]
    if S.config.get("ylim"):
        u = S.real("u", 2**-6, 1 - 2**-6)
        kw, rows = dict(ylim=(by + 9, by + 2 + u) if S.config["ylim"] == 1 else (by - 5, by + 1 + u)), [0] if S.config["ylim"] == 1 else [1]
    data = {"a": (A, (bx, 1.0, 0, by + 3.0, 0, -1.0)), "b": (B, (bx + 1.0, 1.0, 0, by + 4.0, 0, -1.0)), "s": (SA, (bx, 1.0, 0, by + 3.0, 0, -1.0))}
    with disk(S, data) as paths:
        t = [datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 2)]
        if S.config["mixed"]:
            b = Raster.open(paths["b"], datetime=t[1])
            b.read()
        else:
            b = paths["b"]
        ri = RasterInterpolant([paths["a"], b], sigmas=[paths["s"], v], x=[0.0, 1.0])
        m, s = ri(f, return_sigma=True, **kw)
    near = S.min(f, 1 - f)
    S.check(tuple(m.shape) == (len(rows), 3) and tuple(s.shape) == (len(rows), 3), "shape")
    for i, j in itertools.product(range(len(rows)), range(3)):
        p, q = A[rows[i], cols[j]], B[rows[i] + 1, cols[j] - 1]
        S.eq(m.array[i, j], p + (q - p) * f, "values where files intersect")
        w = SA[rows[i], cols[j]]
        S.check(s.array[i, j] >= 0, "standard deviation not negative")
        S.eq(s.array[i, j] ** 2, w**2 + f * f * (w**2 + v**2) + ((q - p) * near / 3) ** 2, "propagated variance", tol=1e-4)
    for r in (m, s):
        S.eq(r.xlim, S.array([bx + 1.0, bx + 4.0]), "limits in x")
        S.eq(r.ylim, S.array([by + 3.0 - rows[0], by + 2.0 - rows[-1]]), "limits in y")
    S.reach()


def coarser(S):
    """Rasters of different cell sizes: the coarser grid, or the one asked for."""
    stubs(S)
    a, A = make(S, "a", 4, 2, o=(0.0, 2.0))
    b, B = make(S, "b", 2, 1, o=(0.0, 2.0), d=(2.0, -2.0))
    f = S.real("q", 2**-6, 1 - 2**-6)
    means = [b, a] if S.config["swap"] else [a, b]
    m = RasterInterpolant(means, x=[0.0, 1.0])(f)
    S.check(tuple(m.shape) == (1, 2), "coarser grid")
    w = 1 - f if S.config["swap"] else f
    for j in range(2):
        mean = (A[0, 2 * j] + A[0, 2 * j + 1] + A[1, 2 * j] + A[1, 2 * j + 1]) / 4
        S.eq(m.array[0, j], mean * (1 - w) + B[0, j] * w, "values of the coarser grid")
    S.eq(m.xlim, S.array([0.0, 4.0]), "limits")
    S.eq(a.array, A, "raster unchanged")
    m = RasterInterpolant([a, a], x=[0.0, 1.0])(f, d=2)
    S.check(tuple(m.shape) == (1, 2), "cell size asked for")
    S.reach()


def shifted(S):
    """Rasters of different lattices: both at the cells of the result."""
    stubs(S)
    by = S.config["by"]
    a, A = make(S, "a", 4, 2, o=(0.0, 2.0))
    b, B = make(S, "b", 4, 2, o=(by, 2.0))
    f = S.real("q", 2**-6, 1 - 2**-6)
    means = [b, a] if S.config.get("swap") else [a, b]
    m = RasterInterpolant(means, x=[0.0, 1.0])(f)
    w = 1 - f if S.config.get("swap") else f
    seen = 0
    for j, x in enumerate(m.x):
        # positions among the cell centers of each
        p, q = float(x) - 0.5, float(x) - by - 0.5
        if not (0 <= float(x) <= 4 and by <= float(x) <= by + 4):
            S.check(S.and_(*[S.isnan(m.array[i, j]) for i in range(2)]), "missing beyond either raster")
        if min(p, q) < 0 or max(p, q) > 3:
            continue
        seen += 1
        for i in range(2):
            u, v = (Z[i, int(k)] + (Z[i, min(int(k) + 1, 3)] - Z[i, int(k)]) * (k % 1) for Z, k in ((A, p), (B, q)))
            S.eq(m.array[i, j], u + (v - u) * w, "values at the same place")
    S.check(seen >= 3, "most cells of both")
    S.eq(m.ylim, S.array([2.0, 0.0]), "limits in y")
    for r, Z, o in ((a, A, 0.0), (b, B, by)):
        S.eq(r.array, Z, "rasters unchanged")
        S.eq(r.xlim, S.array([o, o + 4]), "limits of rasters unchanged")
    S.reach()


def resized(S):
    """Resizing samples the values at the new cell centers."""
    stubs(S)
    nx, ny = S.config["size"]
    r, Z = make(S, "z", nx, ny)
    k = S.config["scale"]
    x, y = r.xlim.copy(), r.ylim.copy()
    r.resize(k)
    n, m = round(nx * k), round(ny * k)
    S.check(tuple(r.shape) == (m, n), "size")
    S.eq(r.xlim, x, "limits in x")
    S.eq(r.ylim, y, "limits in y")
    for i, j in itertools.product(range(m), range(n)):
        p = [min(max((q + 0.5) * w / l - 0.5, 0), w - 1) for q, w, l in ((i, ny, m), (j, nx, n))]
        c = [min(int(q), w - 2) if w > 1 else 0 for q, w in zip(p, (ny, nx))]
        g = [q - w for q, w in zip(p, c)]
        want = 0.0
        for a, b in itertools.product((0, 1), (0, 1)):
            e = (g[0] if a else 1 - g[0]) * (g[1] if b else 1 - g[1])
            if e:
                want = want + e * Z[c[0] + a, c[1] + b]
        S.eq(r.array[i, j], want, "value at the new cell center")
    S.reach()


def whole(S):
    """Whole values of any type are as real ones."""
    stubs(S)
    A, B = np.array([[200, 3], [7, 255]]), np.array([[100, 250], [9, 0]])
    SA, SB = np.array([[17, 200], [2, 190]]), np.array([[181, 6], [220, 0]])
    kw = dict(x=(0.0, 2.0), y=(2.0, 0.0))
    kinds = S.config["types"]
    rs = [Raster(Z.astype(k), **kw) for Z, k in zip((A, B, SA, SB), kinds)]
    f = S.real("q", 2**-6, 1 - 2**-6)
    ri = RasterInterpolant(rs[:2], sigmas=rs[2:], x=[0.0, 1.0])
    m, s = ri(f, return_sigma=True)
    near = S.min(f, 1 - f)
    for i, j in itertools.product(range(2), range(2)):
        a, b, v, w = [float(Z[i, j]) for Z in (A, B, SA, SB)]
        S.eq(m.array[i, j], a + (b - a) * f, "whole values")
        S.eq(s.array[i, j] ** 2, v**2 + f * f * (v**2 + w**2) + ((b - a) * near / 3) ** 2, "uncertainties of whole values", tol=1e-3)
    for r, Z in zip(rs, (A, B, SA, SB)):
        S.eq(r.array, Z, "rasters unchanged")
    S.reach()


HARNESSES = [
    H("nearest", nearest, [dict(n=3, time=t) for t in (False, True)], thorough=[dict(n=4, time=t) for t in (False, True)], bounds="3 (thorough: 4) rasters at any distinct coordinates in any order"),
    H("between", between, [dict(time=False, sigma="raster"), dict(time=True, sigma="number"), dict(time=False, sigma="none", order=(1, 0)), dict(time=False, sigma="mixed", first=True), dict(time=False, sigma="mixed", first=False, order=(1, 0)), dict(time=False, sigma="raster", extrapolate="after"), dict(time=False, sigma="raster", extrapolate="before")],
      bounds="two 2x2 rasters at any coordinates with any values and uncertainties"),
    H("at", at, [dict(k=k, time=t) for k, t in ((0, False), (1, True), (2, False))], bounds="three 2x2 rasters, at any of them"),
    H("extents", extents, [dict(), dict(crop=1), dict(crop=2), dict(fun=True), dict(crop=2, zlim=True), dict(base=FAR), dict(base=FAR, crop=1), dict(base=FAR, crop=2)], bounds="4x3 and 3x3 rasters on a common lattice, any values"),
    H("whole", whole, [dict(types=t) for t in (("uint8", "uint8", "float64", "float64"), ("float64", "uint16", "int16", "uint8"), ("int32", "int64", "uint8", "int16"), ("int64", "float64", "int32", "float32"))], bounds="two 2x2 rasters of whole values, at any coordinate"),
    H("numbers", numbers, [dict(first=False), dict(first=True)], bounds="a 3x2 raster and a number"),
    H("files", files, [dict(mixed=False), dict(mixed=True, ylim=1), dict(mixed=False, ylim=2), dict(mixed=False, base=FAR), dict(mixed=True, ylim=2, base=FAR)], bounds="files of 4x3 and 3x3 cells, any values and uncertainties; GDAL as a nearest-neighbor window reader"),
    H("coarser", coarser, [dict(swap=False), dict(swap=True)], bounds="cell sizes of 1 and 2"),
    H("shifted", shifted, [dict(by=k, swap=w) for k in (0.25, 0.5, -0.75, 0.875) for w in (False, True)], bounds="4x2 rasters with lattices apart by a part of a cell"),
    H("resized", resized, [dict(size=(4, 2), scale=k) for k in (0.5, 2, 1.5)] + [dict(size=(3, 3), scale=k) for k in (2, 1 / 3)], bounds="4x2 and 3x3 rasters, 5 scales; zoom as its matrix of impulse responses"),
]
