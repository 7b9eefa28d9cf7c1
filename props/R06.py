"""Rasterizing points, filling circles."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from glimpse import helpers as h
from props.R03 import raster

ASSUMPTIONS = ["points within 2^-16 cells of a cell edge are not decided (except exactly on the outer edges)"]


def indexed(S):
    """Means of points by cell; other cells are untouched."""
    shape = (2, 2)
    n = S.config["n"]
    depth = S.config.get("depth")
    rows = [S.concrete(S.int("r%d" % i, 0, 1)) for i in range(n)]
    cols = [S.concrete(S.int("c%d" % i, 0, 1)) for i in range(n)]
    v = S.reals("v", (n, depth) if depth else n, -8, 8)
    a = S.reals("a", shape + (depth,) if depth else shape, -8, 8)
    if S.config.get("missing"):
        v[S.concrete(S.int("missing", 0, n - 1))] = np.nan
    keep, keepv = a.copy(), v.copy()
    R, C = np.array(rows), np.array(cols)
    idx, means = h.rasterize_points(R, C, v, shape=shape)
    cells = sorted({r * 2 + c for r, c in zip(rows, cols)})
    S.eq(idx, np.array(cells), "cells with points, sorted")
    S.check(len(means) == len(cells), "a mean for each")
    S.check(h.rasterize_points(R, C, v, a=a) is None, "nothing returned")
    for k in range(4):
        here = [i for i in range(n) if rows[i] * 2 + cols[i] == k]
        q = (k // 2, k % 2)
        if here:
            if depth:
                m = S.array([sum(keepv[i, z] for i in here) / len(here) for z in range(depth)])
            else:
                m = sum(keepv[i] for i in here) / len(here)
            S.eq(a[q], m, "mean in the array")
            S.eq(means[cells.index(k)], m, "mean")
        else:
            S.eq(a[q], keep[q], "cells without points")
    S.eq(v, keepv, "values unchanged")
    S.reach()


def points(S):
    """Each cell has the mean of the points in it, or NaN without."""
    nx, ny = S.config["size"]
    if S.config.get("ints"):
        o, d = [2.5, -3.0], [1.5, -0.75]
        r = glimpse.Raster(np.ones((ny, nx), dtype=int), x=S.array([o[0], o[0] + nx * d[0]]), y=S.array([o[1], o[1] + ny * d[1]]))
        Z = r.array.copy()
    else:
        r, Z, o, d = raster(S, nx, ny, S.config["flip"])
    keep = Z.copy()
    n = S.config["n"]
    pos, xy = [], []
    for i in range(n):
        j, k = S.concrete(S.int("j%d" % i, -1, nx)), S.concrete(S.int("k%d" % i, 0, ny - 1))
        f, g = S.real("f%d" % i, 2**-16, 1 - 2**-16), S.real("g%d" % i, 2**-16, 1 - 2**-16)
        pos.append((k, j))
        xy.append([o[0] + (j + f) * d[0], o[1] + (k + g) * d[1]])
    v = S.reals("v", n, -8, 8)
    if S.config.get("missing"):
        v[S.concrete(S.int("missing", 0, n - 1))] = np.nan
    if S.config.get("edge"):
        # a point in the last corner
        pos.append((ny - 1, nx - 1))
        xy.append([r.xlim[1], r.ylim[1]])
        v = S.array([v[i] for i in range(n)] + [S.real("w", -8, 8)])
    out = r.rasterize(S.array(xy), v)
    S.check(out.shape == (ny, nx), "shape")
    for i, j in itertools.product(range(ny), range(nx)):
        here = [k for k, p in enumerate(pos) if p == (i, j)]
        if here:
            S.eq(out[i, j], sum(v[k] for k in here) / len(here), "mean of the points in the cell")
        else:
            S.check(S.isnan(out[i, j]), "cells without points are undefined")
    S.eq(r.array, keep, "raster unchanged")
    S.reach()


def circle(S):
    """Cells within the radius (in cells) of the center are filled, cells beyond are not."""
    nx, ny = S.config["size"]
    flip = S.config["flip"]
    o, c = [2.5, -3.0], 1.5
    d = [c * (-1 if f else 1) for f in flip]
    Z = S.reals("z", (ny, nx), -9, 9)
    keep = Z.copy()
    r = glimpse.Raster(Z, x=S.array([o[0], o[0] + nx * d[0]]), y=S.array([o[1], o[1] + ny * d[1]]))
    ci, cj = S.concrete(S.int("ci", 0, ny - 1)), S.concrete(S.int("cj", 0, nx - 1))
    f, g = S.real("f", 2**-10, 1 - 2**-10), S.real("g", 2**-10, 1 - 2**-10)
    rad = S.concrete(S.int("rad", 1, S.config["rad"]))
    q = S.real("q", -0.375, 0.375)
    v = S.real("v", 20, 30)
    r.fill_circle((o[0] + (cj + f) * d[0], o[1] + (ci + g) * d[1]), (rad + q) * c, v)
    for i, j in itertools.product(range(ny), range(nx)):
        dist = ((i - ci) ** 2 + (j - cj) ** 2) ** 0.5
        if dist <= rad - 0.75:
            S.eq(r.array[i, j], v, "cells within the radius")
        elif dist >= rad + 0.75:
            S.eq(r.array[i, j], keep[i, j], "cells beyond the radius")
        else:
            S.check(S.or_(r.array[i, j] == v, r.array[i, j] == keep[i, j]), "cells on the circle")
    for k in range(rad + 1):
        for i, j in ((ci + k, cj), (ci - k, cj), (ci, cj + k), (ci, cj - k)):
            if 0 <= i < ny and 0 <= j < nx:
                S.eq(r.array[i, j], v, "cells along the axes")
    S.reach()


FLIPS = [(False, True), (True, False)]
HARNESSES = [
    H("indexed", indexed, [dict(n=2), dict(n=3), dict(n=2, depth=2), dict(n=2, missing=True)], bounds="2-3 points in 2x2 arrays, up to 2 values each, one missing or none"),
    H("points", points, [dict(size=(2, 2), flip=f, n=2) for f in FLIPS] + [dict(size=(2, 1), flip=FLIPS[0], n=3), dict(size=(2, 2), flip=FLIPS[1], n=1, edge=True), dict(size=(2, 2), n=2, ints=True), dict(size=(2, 1), flip=FLIPS[1], n=2, missing=True)], bounds="1-3 points anywhere near rasters of 2x2 at any position"),
    H("circle", circle, [dict(size=(4, 4), flip=f, rad=2) for f in FLIPS + [(True, True)]], thorough=[dict(size=(7, 6), flip=f, rad=5) for f in FLIPS], bounds="4x4 (thorough: 7x6) rasters of square cells, any center in them, radius up to 2 (5) cells"),
]
