"""Sampling of rasters."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from props.common import patch_interpolation


def raster(S, nx, ny, flip, dtype=float, nan=None):
    """Values at any position, in either direction."""
    lim, o, d = [], [], []
    for k, n in enumerate((nx, ny)):
        a = S.real("o%d" % k, -8, 8)
        c = [1.5, 0.75][k] * (-1 if flip[k] else 1)
        lim.append(S.array([a, a + c * n]))
        o.append(a)
        d.append(c)
    Z = S.reals("z", (ny, nx), -9, 9)
    if nan:
        Z[nan[0], nan[1]] = np.nan
    return glimpse.Raster(Z.copy(), x=lim[0], y=lim[1]), Z, o, d


def value(S, Z, u, v, order):
    """Bilinear (or nearest) value at image coordinates in units of cell centers."""
    ny, nx = Z.shape

    def cell(t, n):
        i = 0
        while i < n - 2 and t >= i + 1:
            i += 1
        return i

    if order == 0:
        def near(t, n):
            i = 0
            while i < n - 1 and t > i + 0.5:
                i += 1
            return i
        return Z[near(v, ny), near(u, nx)]
    out = 0
    j, i = cell(u, nx) if nx > 1 else 0, cell(v, ny) if ny > 1 else 0
    f, g = u - j if nx > 1 else 0, v - i if ny > 1 else 0
    for di, wi in ((0, 1 - g), (1, g))[:1 if ny == 1 else 2]:
        for dj, wj in ((0, 1 - f), (1, f))[:1 if nx == 1 else 2]:
            out = out + Z[i + di, j + dj] * wi * wj
    return out


def point(S, name, n, order):
    """A position along an axis: column number, and fraction of a cell."""
    k = S.concrete(S.int(name + "i", -1, n - 1))
    f = S.real(name + "f", 2**-12, 1 - 2**-12)
    if order == 0:
        S.assume(S.abs(f - 0.5) >= 2**-12)
    u = k + f
    if n > 1 or True:
        # away from the bounds
        S.assume(S.and_(S.abs(u + 0.5) >= 2**-12, S.abs(u - (n - 0.5)) >= 2**-12))
    return u


def at_points(S):
    """Bilinear (nearest) values at points; beyond the bounds, as asked."""
    nx, ny = S.config["size"]
    order, mode = S.config["order"], S.config["mode"]
    patch_interpolation(S)
    r, Z, o, d = raster(S, nx, ny, S.config["flip"])
    u, v = point(S, "u", nx, order), point(S, "v", ny, order)
    inside = S.and_(u > -0.5, u < nx - 0.5, v > -0.5, v < ny - 0.5)
    xy = S.array([[o[0] + (u + 0.5) * d[0], o[1] + (v + 0.5) * d[1]]])
    kw = {"error": {}, "fill": dict(bounds_error=False, fill_value=-77.0), "extrapolate": dict(bounds_error=False, fill_value=None)}[mode]
    if mode == "error" and not inside:
        S.raises(ValueError, lambda: r.sample(xy, order=order, **kw), "points out of bounds are refused")
        S.reach("out")
        return
    keep = xy.copy()
    out = r.sample(xy, order=order, **kw)
    S.eq(xy, keep, "points unchanged")
    S.check(out.shape == (1,), "a value for each point")
    if mode == "fill" and not inside:
        S.eq(out[0], -77.0, "fill value out of bounds")
    else:
        S.eq(out[0], value(S, Z, u, v, order), "interpolated value")
    S.eq(r.array, Z, "raster unchanged")
    S.reach()


def at_grid(S):
    """Sampling a grid is sampling each of its points, in either direction."""
    nx, ny = S.config["size"]
    mode = S.config["mode"]
    patch_interpolation(S)
    r, Z, o, d = raster(S, nx, ny, S.config["flip"])
    if S.config["sx"] > 0:
        us = [point(S, "u", nx, 1)]
        us.append(us[0] + 0.5)
    else:
        us = [point(S, "u", nx, 1)]
        us.append(us[0] - 0.5)
    vs = [point(S, "v", ny, 1)]
    for u in us[1:]:
        S.assume(S.and_(S.abs(u + 0.5) >= 2**-12, S.abs(u - (nx - 0.5)) >= 2**-12))
    x = S.array([o[0] + (u + 0.5) * d[0] for u in us])
    y = S.array([o[1] + (v + 0.5) * d[1] for v in vs])
    ins = [[S.and_(u > -0.5, u < nx - 0.5, v > -0.5, v < ny - 0.5) for u in us] for v in vs]
    every = S.and_(*[i for row in ins for i in row])
    kw = {"error": {}, "fill": dict(bounds_error=False, fill_value=-77.0)}[mode]
    if mode == "error" and not every:
        S.raises(ValueError, lambda: r.sample((x, y), grid=True, **kw), "points out of bounds are refused")
        S.reach("out")
        return
    out = r.sample((x, y), grid=True, **kw)
    S.check(out.shape == (1, 2), "rows of y, columns of x")
    for j, u in enumerate(us):
        if ins[0][j]:
            S.eq(out[0, j], value(S, Z, u, vs[0], 1), "interpolated value")
        else:
            S.eq(out[0, j], -77.0, "fill value out of bounds")
    S.eq(r.array, Z, "raster unchanged")
    S.reach()


def filled(S):
    """Fill values of any type, beside interpolated values, of rasters of any type."""
    nx, ny = S.config["size"]
    patch_interpolation(S)
    integers = bool(S.config.get("integers"))
    Z = S.ints("z", (ny, nx), -9, 9) if integers else S.reals("z", (ny, nx), -9, 9)
    r = glimpse.Raster(Z.copy(), x=(0, nx), y=(ny, 0))
    fill = S.config["fill"]
    fill = float("nan") if fill == "nan" else fill
    u, v = S.real("u", -0.25, nx - 0.75), S.real("v", -0.25, ny - 0.75)
    us, vs = [u, nx + 3.0, nx + 5.0], [v, ny + 4.0]
    if S.config.get("grid"):
        out = r.sample((S.array([w + 0.5 for w in us]), S.array([ny - 0.5 - w for w in vs])), grid=True, bounds_error=False, fill_value=fill)
        S.check(tuple(out.shape) == (2, 3), "rows of y, columns of x")
        flat = [out[i, j] for i in range(2) for j in range(3)]
    else:
        at = [(a, b) for b in vs for a in us]
        out = r.sample(S.array([[a + 0.5, ny - 0.5 - b] for a, b in at]), bounds_error=False, fill_value=fill)
        S.check(tuple(out.shape) == (6,), "a value for each point")
        flat = list(out)
    S.eq(flat[0], value(S, Z, u, v, 1), "interpolated value")
    for w in flat[1:]:
        if fill != fill:
            S.check(S.isnan(w), "fill value out of bounds")
        else:
            S.eq(w, fill, "fill value out of bounds")
    S.reach()


def rows(S):
    """Values of a raster of one row or column apply to every point alongside."""
    nx, ny = S.config["size"]
    n = nx * ny
    patch_interpolation(S)
    Z = S.reals("z", (ny, nx), -9, 9)
    r = glimpse.Raster(Z.copy(), x=(0, nx), y=(ny, 0))
    us = [S.real("u0", 0, 0.5), S.real("u1", 0.5, 1)] if nx > 1 else [-0.25, 0.125]
    vs = [S.real("v0", 0, 0.25), S.real("v1", 0.5, 1), S.real("v2", 1, 1.25)] if ny > 1 else [-0.25, 0.0, 0.25]
    if nx > 1 or ny > 1:
        S.assume(S.and_(us[0] < us[1], vs[0] < vs[1], vs[1] < vs[2]))
    out = r.sample((S.array([u + 0.5 for u in us]), S.array([ny - 0.5 - v for v in vs])), grid=True)
    S.check(tuple(out.shape) == (3, 2), "rows of y, columns of x")
    S.eq(out, [[value(S, Z, u, v, 1) for u in us] for v in vs], "interpolated values")
    S.reach()


def missing(S):
    """Missing cells only affect points that depend on them, in both methods."""
    nx, ny = 3, 2
    patch_interpolation(S)
    nan = S.config["nan"]
    r, Z, o, d = raster(S, nx, ny, (False, True), nan=nan)
    u, v = point(S, "u", nx, 1), point(S, "v", ny, 1)
    S.assume(S.and_(u > 0, u < nx - 1, v > 0, v < ny - 1))
    x, y = o[0] + (u + 0.5) * d[0], o[1] + (v + 0.5) * d[1]
    j = 0 if u < 1 else 1
    depends = j in (nan[1], nan[1] - 1)
    a = r.sample(S.array([[x, y]]))[0]
    b = r.sample((S.array([x]), S.array([y])), grid=True)[0, 0]
    if depends:
        S.check(S.isnan(a), "points next to missing cells are missing")
        S.check(S.isnan(b), "grid points next to missing cells are missing")
    else:
        S.eq(a, value(S, Z, u, v, 1), "points")
        S.eq(b, value(S, Z, u, v, 1), "grid points")
    S.eq(r.array, Z, "raster unchanged")
    S.reach()


def refused(S):
    """A refused sample leaves the raster as it was."""
    nx, ny = 3, 2
    patch_interpolation(S)
    r, Z, o, d = raster(S, nx, ny, (False, True), nan=(0, 1))
    xy = (S.array([o[0] + d[0]]), S.array([o[1] + d[1]]))
    # cubic interpolation needs at least four cells in each direction
    S.raises(Exception, lambda: r.sample(xy, grid=True, order=3), "too few cells for the order")
    S.eq(r.array, Z, "raster unchanged")
    S.reach()


SIZES = [dict(size=(3, 2), flip=(False, True)), dict(size=(2, 3), flip=(True, False)), dict(size=(1, 3), flip=(False, True)), dict(size=(3, 1), flip=(True, True)), dict(size=(1, 1), flip=(False, False))]
HARNESSES = [
    H("at_points", at_points, [dict(s, order=o, mode=m) for s in SIZES for o, m in ((1, "error"), (1, "fill"), (1, "extrapolate"), (0, "fill"))], bounds="rasters up to 3x2 in either direction, 2 points anywhere (apart from nearest-neighbor ties)"),
    H("at_grid", at_grid, [dict(s, sx=sx, mode=m) for s in SIZES for sx in (1, -1) for m in ("error", "fill")], bounds="rasters up to 3x2 in either direction, grids of 2x2 points"),
    H("filled", filled, [dict(size=s, fill=f, grid=g, integers=i) for s in ((3, 2), (1, 3), (3, 1), (1, 1)) for g in (True, False) for f, i in ((0, False), ("nan", True), (-7.5, True), ("nan", False))],
      bounds="rasters up to 3x2 of real or integer values, points within and beyond, 3 fill values"),
    H("rows", rows, [dict(size=s) for s in ((1, 3), (3, 1), (1, 1), (2, 3))], bounds="rasters up to 2x3, grids of 2x3 points"),
    H("missing", missing, [dict(nan=n) for n in ((0, 0), (1, 1), (0, 2))], bounds="one missing cell of a 3x2 raster, any point off the grid of centers"),
    H("refused", refused, bounds="a 3x2 raster with a missing cell"),
]
