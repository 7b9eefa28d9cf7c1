"""Coordinates of grids: world, image, array and flat indices."""
import itertools

import numpy as np

from symx.runner import H

import glimpse

ASSUMPTIONS = ["points within 2^-16 cells of a cell edge are not decided (except exactly on the outer edges)"]

# far from the origin, and not on a coarse lattice
FAR = (524288.0 + 2**-10, 4194304.0 + 2**-10)


def limits(S, nx, ny, flip=(False, True), tag=""):
    """Outer limits of any position and cell size, in either direction."""
    out = []
    for k, n in enumerate((nx, ny)):
        a = S.real("%so%d" % (tag, k), -16, 16) + S.config.get("base", (0, 0))[k]
        d = S.real("%sd%d" % (tag, k), 0.25, 4)
        b = a + (-d if flip[k] else d) * n
        out.append((a, b))
    return out


def grid(S, raster=False, **kw):
    nx, ny = S.config["size"]
    xl, yl = limits(S, nx, ny, S.config.get("flip", (False, True)))
    if raster:
        g = glimpse.Raster(np.zeros((ny, nx)), x=S.array(xl), y=S.array(yl), **kw)
    else:
        g = glimpse.Grid((nx, ny), x=S.array(xl), y=S.array(yl), **kw)
    d = ((xl[1] - xl[0]) / nx, (yl[1] - yl[0]) / ny)
    return g, (xl[0], yl[0]), d


def kinds():
    return [dict(size=s, flip=f, raster=r) for s, f, r in (
        ((3, 2), (False, True), False), ((2, 3), (True, False), True), ((1, 3), (False, False), True), ((2, 1), (True, True), False))] + [dict(size=(3, 2), flip=(False, True), raster=False, base=FAR)]


def derived(S):
    """Limits, cell size, centers and bounding box describe one grid."""
    g, o, d = grid(S, S.config["raster"])
    nx, ny = S.config["size"]
    S.eq(g.size, S.array([nx, ny]), "size")
    S.check(tuple(g.shape) == (ny, nx), "shape")
    S.eq(g.d, S.array(d), "cell size")
    for x, k, n in ((g.x, 0, nx), (g.y, 1, ny)):
        S.eq(x, S.array([o[k] + (i + 0.5) * d[k] for i in range(n)]), "cell centers")
    S.check(g.X.shape == (ny, nx) and g.Y.shape == (ny, nx), "shapes of coordinates")
    for i, j in itertools.product(range(ny), range(nx)):
        S.eq(g.X[i, j], o[0] + (j + 0.5) * d[0], "x of cells")
        S.eq(g.Y[i, j], o[1] + (i + 0.5) * d[1], "y of cells")
    e = (o[0] + nx * d[0], o[1] + ny * d[1])
    lo = [S.min(o[k], e[k]) for k in range(2)]
    hi = [S.max(o[k], e[k]) for k in range(2)]
    S.eq(g.min, S.array(lo), "minimum")
    S.eq(g.max, S.array(hi), "maximum")
    S.eq(g.box2d, S.array(lo + hi), "box")
    S.reach()


def sources(S):
    """Limits, center vectors and center matrices give the same grid."""
    nx, ny = S.config["size"]
    (x0, x1), (y0, y1) = limits(S, nx, ny, S.config["flip"])
    dx, dy = (x1 - x0) / nx, (y1 - y0) / ny
    x = S.array([x0 + (i + 0.5) * dx for i in range(nx)])
    y = S.array([y0 + (i + 0.5) * dy for i in range(ny)])
    X = S.array([[x[i] for i in range(nx)] for j in range(ny)])
    Y = S.array([[y[j] for i in range(nx)] for j in range(ny)])
    how = S.config["how"]
    a = {"x": (x, y), "X": (X, Y), "list": ([x[i] for i in range(nx)], [y[i] for i in range(ny)])}[how]
    g = glimpse.Raster(np.zeros((ny, nx)), x=a[0], y=a[1]) if S.config["raster"] else glimpse.Grid((nx, ny), x=a[0], y=a[1])
    S.eq(g.xlim, S.array([x0, x1]), "x limits")
    S.eq(g.ylim, S.array([y0, y1]), "y limits")
    S.eq(g.x, x, "x")
    S.eq(g.y, y, "y")
    S.eq(g.X, X, "X")
    S.eq(g.Y, Y, "Y")
    S.reach()


def image(S):
    """World to image coordinates and back; bounds agree in both."""
    g, o, d = grid(S, S.config["raster"])
    nx, ny = S.config["size"]
    uv = S.reals("uv", (2, 2), -2, 5)
    for i, k in itertools.product(range(2), range(2)):
        # points at (not on) the bounds are not decided in floats
        for e in (0, (nx, ny)[k]):
            S.assume(S.or_(uv[i, k] - e >= 2**-16, e - uv[i, k] >= 2**-16))
    xyz = g.uv_to_xyz(uv)
    S.check(xyz.shape == (2, 3), "shape")
    for i in range(2):
        S.eq(xyz[i, :2], S.array([o[k] + uv[i, k] * d[k] for k in range(2)]), "image to world")
        S.check(S.isnan(xyz[i, 2]), "elevation is undefined")
    S.eq(g.xyz_to_uv(xyz[:, :2]), uv, "world to image")
    S.eq(g.xyz_to_uv(S.array([[xyz[i, 0], xyz[i, 1], 7.0] for i in range(2)])), uv, "elevation is unused")
    want = [S.and_(uv[i, 0] >= 0, uv[i, 0] <= nx, uv[i, 1] >= 0, uv[i, 1] <= ny) for i in range(2)]
    got, got2 = g.inbounds(uv), g.inbounds_xy(xyz[:, :2])
    for i in range(2):
        S.eq(got[i], want[i], "in bounds (image)")
        S.eq(got2[i], want[i], "in bounds (world)")
    cols, rows = g.inbounds_xy((xyz[:, 0], xyz[:, 1]), grid=True)
    for i in range(2):
        S.eq(cols[i], S.and_(uv[i, 0] >= 0, uv[i, 0] <= nx), "columns in bounds")
        S.eq(rows[i], S.and_(uv[i, 1] >= 0, uv[i, 1] <= ny), "rows in bounds")
    S.reach()


def arrays(S):
    """World coordinates to array indices and back; flat indices."""
    g, o, d = grid(S, S.config["raster"])
    nx, ny = S.config["size"]
    rc = S.reals("rc", (2, 2), -2, 5)
    xy = g.rowcol_to_xy(rc)
    for i in range(2):
        S.eq(xy[i], S.array([o[0] + (rc[i, 1] + 0.5) * d[0], o[1] + (rc[i, 0] + 0.5) * d[1]]), "array to world")
    S.eq(g.xy_to_rowcol(xy), rc, "world to array")
    idx = np.arange(nx * ny)
    rows = g.idx_to_rowcol(idx)
    S.eq(rows, np.array([(i, j) for i in range(ny) for j in range(nx)]), "flat to array indices")
    S.eq(g.rowcol_to_idx(rows), idx, "array to flat indices")
    S.eq(g.rowcol_to_xy(rows), S.array([[g.X[i, j], g.Y[i, j]] for i in range(ny) for j in range(nx)]), "centers")
    S.reach()


def cells(S):
    """Snapped array indices are those of the cell that holds the point."""
    g, o, d = grid(S, S.config["raster"])
    nx, ny = S.config["size"]
    j, i = S.concrete(S.int("col", -1, nx)), S.concrete(S.int("row", -1, ny))
    f = [S.real("fu", 2**-16, 1 - 2**-16), S.real("fv", 2**-16, 1 - 2**-16)]
    # points on the outer edges too
    edge = S.config["edge"]
    u = [j + f[0], i + f[1]]
    want = [i, j]
    if edge:
        u = [nx * 1.0, ny * 1.0]
        xl, yl = g.xlim[1], g.ylim[1]
        xy = S.array([[xl, yl]])
        want = [ny - 1, nx - 1]
    else:
        xy = S.array([[o[0] + u[0] * d[0], o[1] + u[1] * d[1]]])
    keep = xy.copy()
    rc = g.xy_to_rowcol(xy, snap=True)
    S.eq(xy, keep, "points unchanged")
    S.eq(rc[0], S.array(want), "cell of the point")
    S.check(rc.dtype.kind == "i", "integer indices")
    if edge:
        # points on the last edges belong to cells beyond them, if asked
        out = g.xy_to_rowcol(xy, snap=True, inbounds=False)
        S.eq(out[0], S.array([v + 1 for v in want]), "cell beyond the last edges")
    S.reach()


def rounding(S):
    """As above when arithmetic rounds: any small error of each operation."""
    nx, ny = S.config["size"]
    d = S.config["d"]
    x0, y0 = 100.1, -7.3
    g = glimpse.Grid((nx, ny), x=S.array([x0, x0 + nx * d]), y=S.array([y0, y0 - ny * d]))
    j, i = S.concrete(S.int("col", 0, nx - 1)), S.concrete(S.int("row", 0, ny - 1))
    f = [S.real("fu", 2**-10, 1 - 2**-10), S.real("fv", 2**-10, 1 - 2**-10)]
    xy = S.array([[x0 + (j + f[0]) * d, y0 - (i + f[1]) * d]])
    S.rounding(2**-40)
    rc = g.xy_to_rowcol(xy, snap=True)
    S.rounding(0)
    S.eq(rc[0], S.array([i, j]), "cell of the point, despite rounding")
    S.reach()


HARNESSES = [
    H("derived", derived, kinds(), bounds="grids up to 3x2, any limits in either direction"),
    H("sources", sources, [dict(size=(3, 4), flip=f, how=w, raster=r) for f in ((False, True), (True, False)) for w in ("x", "X", "list") for r in (False, True)], bounds="3x4 grids"),
    H("image", image, kinds(), bounds="2 points"),
    H("arrays", arrays, kinds(), bounds="2 points, all cells"),
    H("cells", cells, [dict(k, edge=e) for k in kinds() for e in (False, True) if not (e and "base" in k)], bounds="any point within a cell of the grid"),
    H("rounding", rounding, [dict(size=(6, 5), d=d) for d in (0.1, 0.7)], bounds="6x5 grid of 2 cell sizes, error of 2^-40 in each operation"),
]
