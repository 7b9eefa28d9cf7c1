"""Lines of sight over a raster: viewshed and horizon."""
import itertools
import math

import numpy as np

from symx.runner import H

import glimpse

ASSUMPTIONS = ["elevation angles compared differ by at least 2^-12 in slope"]


def raster(S):
    nx, ny = S.config["size"]
    flip = S.config.get("flip", (False, True))
    c = S.config.get("cell", 1.0)
    d = [c * (-1 if f else 1) for f in flip]
    o = [0.0 if not f else c * n for f, n in zip(flip, (nx, ny))]
    Z = S.reals("z", (ny, nx), -8, 8)
    for i, j in S.config.get("nan", ()):
        Z[i, j] = np.nan
    r = glimpse.Raster(Z, x=S.array([o[0], o[0] + nx * d[0]]), y=S.array([o[1], o[1] + ny * d[1]]))
    u, v = S.config["at"]
    z = S.real("h", -4, 4)
    origin = S.array([o[0] + u * d[0], o[1] + v * d[1], z])
    dist = np.array([[c * math.hypot(j + 0.5 - u, i + 0.5 - v) for j in range(nx)] for i in range(ny)])
    return r, Z, origin, dist


def bending(corr):
    """Apparent drop of the surface with distance."""
    k = dict(radius=6.3781e6, refraction=0.13)
    k.update(corr if isinstance(corr, dict) else {})
    return lambda q: float((k["refraction"] - 1) * q**2 / (2 * k["radius"])) if corr or corr == {} and isinstance(corr, dict) else 0.0


def apart(S, slopes):
    """No two elevation angles are (nearly) the same."""
    for a, b in itertools.combinations(slopes, 2):
        S.assume(S.or_(a - b >= 2**-12, b - a >= 2**-12))


def axes(S):
    """In the row and column of the viewer, cells are visible exactly when above all nearer ones."""
    r, Z, origin, dist = raster(S)
    ny, nx = r.shape
    keep = Z.copy()
    vis = r.viewshed(origin, **S.config.get("kw", {}))
    S.check(vis.shape == (ny, nx), "shape")
    S.check(vis.dtype == bool, "boolean")
    S.eq(Z, keep, "raster unchanged")
    v, u = int(S.config["at"][1]), int(S.config["at"][0])
    corr = S.config.get("kw", {}).get("correction")
    bend = bending(corr)
    for di, dj in ((0, 1), (0, -1), (1, 0), (-1, 0)):
        ray = []
        k = 1
        while 0 <= v + k * di < ny and 0 <= u + k * dj < nx:
            ray.append((v + k * di, u + k * dj))
            k += 1
        nearer = []
        for p in ray:
            if S.isnan(keep[p]):
                S.check(S.not_(vis[p]), "missing cells are not visible")
                continue
            s = (keep[p] - origin[2] + bend(dist[p])) / dist[p]
            for q in nearer:
                S.assume(S.or_(s - q >= 2**-12, q - s >= 2**-12))
            S.eq(vis[p], S.and_(*[s > q for q in nearer]), "visible above all nearer cells")
            nearer.append(s)
    S.reach()


def blocked(S):
    """A hidden cell has a nearer cell that blocks it; a closed ring hides all below it."""
    r, Z, origin, dist = raster(S)
    ny, nx = r.shape
    vis = r.viewshed(origin)
    # whether the cell in which the viewer stands is visible is left open
    cells = [p for p in itertools.product(range(ny), range(nx)) if dist[p] >= 0.5]
    slope = {p: (Z[p] - origin[2]) / dist[p] for p in cells}
    near = min(dist[p] for p in cells)
    for p in cells:
        if S.isnan(Z[p]):
            S.check(S.not_(vis[p]), "missing cells are not visible")
            continue
        front = [q for q in cells if dist[q] < dist[p] - 1e-9 and not S.isnan(Z[q])]
        S.check(S.or_(vis[p], *[slope[q] >= slope[p] - 1e-9 for q in front]), "hidden cells are blocked by a nearer cell")
        if dist[p] <= near + 1e-9:
            S.check(vis[p], "the nearest cells are visible")
        # cells of the eight directions around the viewer
        wall = [q for q in cells if max(abs(q[0] - p0) for p0 in [int(S.config["at"][1])]) <= 1 and abs(q[1] - int(S.config["at"][0])) <= 1]
        if S.config.get("closed") and p not in wall:
            S.check(S.implies(vis[p], S.or_(*[slope[p] > slope[q] - 1e-9 for q in wall])), "a closed ring hides cells below it")
    S.reach()


def raised(S):
    """Raising a visible cell keeps it visible; offsets and mirror images do not matter."""
    r, Z, origin, dist = raster(S)
    ny, nx = r.shape
    vis = r.viewshed(origin)
    p = S.config["cell_at"]
    up = S.real("up", 0, 4)
    other = Z.copy()
    other[p] = Z[p] + up
    q = glimpse.Raster(other, x=r.xlim, y=r.ylim)
    S.check(S.implies(vis[p], q.viewshed(origin)[p]), "raised cells stay visible")
    # the same surface stored in the other direction
    m = glimpse.Raster(Z[::-1, ::-1].copy(), x=r.xlim[::-1], y=r.ylim[::-1])
    w = m.viewshed(origin)
    for i, j in itertools.product(range(ny), range(nx)):
        S.eq(w[ny - 1 - i, nx - 1 - j], vis[i, j], "the same for the raster stored in reverse")
    S.reach()


def mirrored(S):
    """A visible cell, raised a bit, is visible in the mirror image or the surface turned."""
    r, Z, origin, dist = raster(S)
    ny, nx = r.shape
    vis = r.viewshed(origin)
    i, j = S.config["cell_at"]
    other = Z.copy()
    other[i, j] = Z[i, j] + 2**-6
    how = S.config["how"]
    if how == "x":
        m, at = glimpse.Raster(other, x=-r.xlim, y=r.ylim), (-origin[0], origin[1], origin[2])
    elif how == "y":
        m, at = glimpse.Raster(other, x=r.xlim, y=-r.ylim), (origin[0], -origin[1], origin[2])
    elif how == "turn":
        m, at = glimpse.Raster(other, x=-r.xlim, y=-r.ylim), (-origin[0], -origin[1], origin[2])
    else:
        # x and y exchanged
        m, at = glimpse.Raster(other.T.copy(), x=r.ylim, y=r.xlim), (origin[1], origin[0], origin[2])
        i, j = j, i
    w = m.viewshed(S.array(list(at)))
    S.check(S.implies(vis[S.config["cell_at"]], w[i, j]), "as visible in the mirror image")
    S.reach()


def horizon(S):
    """Along each heading, the cell with the largest elevation angle, unless no data lie beyond."""
    r, Z, origin, dist = raster(S)
    ny, nx = r.shape
    keep = Z.copy()
    u, v = S.config["at"]
    steps = S.config["steps"]  # (drow, dcol) to the next cell along each heading
    heads = S.config["headings"]
    corr = S.config.get("kw", {}).get("correction")
    bend = bending(corr)
    out = r.horizon(origin, headings=heads, **S.config.get("kw", {}))
    S.eq(Z, keep, "raster unchanged")
    want, segments = [], []
    for (di, dj) in steps:
        i, j = math.floor(v), math.floor(u)
        if not (0 <= i < ny and 0 <= j < nx):
            # enters at the bounds
            k = 0
            while not (0 <= i < ny and 0 <= j < nx) and k < 50:
                i, j, k = i + di, j + dj, k + 1
        else:
            i, j = i + di, j + dj
        ray = []
        while 0 <= i < ny and 0 <= j < nx:
            if not S.isnan(keep[i, j]):
                ray.append((i, j))
            i, j = i + di, j + dj
        if not ray:
            want.append(None)
            continue
        s = [(keep[p] - origin[2] + bend(dist[p])) / dist[p] for p in ray]
        apart(S, s)
        best = 0
        for k in range(1, len(ray)):
            if s[k] > s[best]:
                best = k
        want.append(ray[best] if best < len(ray) - 1 else None)
    segs, cur = [], []
    for w in want:
        if w is None:
            if cur:
                segs.append(cur)
            cur = []
        else:
            cur.append(w)
    if cur:
        segs.append(cur)
    if len(segs) > 1 and want[0] is not None and want[-1] is not None:
        segs = [segs[-1] + segs[0]] + segs[1:-1]
    S.check(len(out) == len(segs), "number of segments")
    if len(out) != len(segs):
        return
    for a, b in zip(out, segs):
        S.eq(a, S.array([[r.x[j], r.y[i], keep[i, j]] for i, j in b]), "points of the horizon")
    S.reach()


AXES = dict(headings=[0, 90, 180, 270], steps=[(-1, 0), (0, 1), (1, 0), (0, -1)])
DIAG = dict(headings=[45, 135, 225, 315], steps=[(-1, 1), (1, 1), (1, -1), (-1, -1)])
ALL = dict(headings=list(range(0, 360, 45)), steps=[s for p in zip(AXES["steps"], DIAG["steps"]) for s in p])
flipped = lambda c: dict(c, flip=(True, False), steps=[(-i, -j) for i, j in c["steps"]])
def whole(S):
    """Whole elevations of any type are as real ones."""
    Z = np.array(S.config["z"], dtype=S.config["type"])
    ny, nx = Z.shape
    kw = dict(x=(0, nx), y=(ny, 0))
    a, b = glimpse.Raster(Z.copy(), **kw), glimpse.Raster(Z.astype(float), **kw)
    h = S.int("h", *S.config["heights"])
    if S.config.get("each"):
        h = int(S.concrete(h))
    origin = (*S.config["at"], h)
    corr = S.config.get("correction", False)
    va, vb = a.viewshed(origin, correction=corr), b.viewshed(origin, correction=corr)
    S.check(va.shape == vb.shape, "shape of the viewshed")
    S.eq(1 * va, 1 * vb, "viewshed of whole elevations")
    args = dict(headings=[0, 90, 180, 270], correction=corr)
    ha, hb = a.horizon(origin, **args), b.horizon(origin, **args)
    S.check([len(p) for p in ha] == [len(p) for p in hb], "points of the horizon")
    for p, q in zip(ha, hb):
        S.eq(p, q, "horizon of whole elevations")
    S.eq(a.array, Z, "raster unchanged")
    S.reach()


HARNESSES = [
    H("axes", axes, [dict(size=(6, 1), at=(0.5, 0.5)), dict(size=(1, 6), at=(0.5, 2.5)), dict(size=(5, 3), at=(2.5, 1.5)), dict(size=(3, 3), at=(0.5, 0.5), flip=(True, False)),
                     dict(size=(5, 1), at=(0.5, 0.5), nan=[(0, 1)]), dict(size=(6, 1), at=(1.5, 0.5), nan=[(0, 3)]), dict(size=(5, 1), at=(0.5, 0.5), nan=[(0, 1), (0, 2)]), dict(size=(1, 6), at=(0.5, 1.5), nan=[(2, 0), (3, 0), (0, 0)]), dict(size=(5, 1), at=(0.5, 0.5), cell=500.0, kw=dict(correction=True)),
                     dict(size=(5, 1), at=(0.5, 0.5), cell=2.0, kw=dict(correction=dict(radius=20.0))), dict(size=(1, 5), at=(0.5, 3.5), cell=2.0, kw=dict(correction=dict(radius=15.0, refraction=0.5)))],
      thorough=[dict(size=(8, 1), at=(2.5, 0.5)), dict(size=(4, 4), at=(1.5, 1.5)), dict(size=(5, 3), at=(0.5, 1.5), nan=[(1, 1)])],
      bounds="rasters up to 6x1 and 5x3 (thorough: 8x1 and 4x4), any elevations, viewer at a cell center", budget_s=90),
    H("blocked", blocked, [dict(size=(5, 3), at=(2.5, 1.5), closed=True), dict(size=(4, 3), at=(0.25, 1.375)), dict(size=(3, 3), at=(1.25, 0.75), nan=[(2, 2)])],
      thorough=[dict(size=(4, 4), at=(1.5, 1.5), closed=True)], bounds="rasters up to 5x3 (thorough: 4x4), any elevations", budget_s=90),
    H("raised", raised, [dict(size=(4, 2), at=(0.5, 0.5), cell_at=(0, 2)), dict(size=(3, 3), at=(0.5, 0.5), cell_at=(2, 2))], bounds="4x2 and 3x3 rasters, any elevations", budget_s=90),
    H("mirrored", mirrored, [dict(size=(3, 3), at=(2.5, 1.5), cell_at=(0, 0), how="x"), dict(size=(3, 3), at=(0.5, 1.5), cell_at=(2, 2), how="x"), dict(size=(3, 3), at=(1.5, 0.5), cell_at=(2, 0), how="y"),
                             dict(size=(3, 3), at=(1.5, 2.5), cell_at=(0, 2), how="turn"), dict(size=(3, 3), at=(2.5, 1.5), cell_at=(0, 0), how="swap"), dict(size=(3, 3), at=(2.5, 1.5), cell_at=(2, 0), how="swap")],
      bounds="3x3 rasters, any elevations", budget_s=90),
    H("whole", whole, [dict(z=[[3, 9, 5, 20], [7, 2, 8, 4]], type="int64", at=(0.5, 0.5), heights=(1, 40), correction=True),
                       dict(z=[[3, 9, 5, 20], [7, 2, 8, 4]], type="uint8", at=(0.5, 0.5), heights=(1, 40), each=True),
                       dict(z=[[3, 9, 5], [7, 2, 8], [1, 6, 0]], type="int16", at=(1.5, 1.5), heights=(-9, 20), each=True, correction=True),
                       dict(z=[[30, 90, 55], [70, 20, 80], [10, 60, 0]], type="uint16", at=(1.5, 1.5), heights=(1, 50))],
      bounds="4 rasters of whole elevations, any whole height of the viewer"),
    H("horizon", horizon, [dict(AXES, size=(5, 3), at=(1.5, 1.5)), dict(DIAG, size=(5, 5), at=(2.5, 2.5)), dict(ALL, size=(3, 3), at=(1.5, 1.5)), dict(AXES, size=(3, 3), at=(0.5, 1.5)), dict(flipped(AXES), size=(4, 3), at=(0.5, 1.5)),
                           dict(AXES, size=(4, 3), at=(1.5, 1.5), nan=[(1, 2), (1, 3), (2, 1)]), dict(AXES, size=(5, 3), at=(1.5, 1.5), nan=[(1, 4), (0, 1)]), dict(headings=[90], steps=[(0, 1)], size=(6, 1), at=(0.5, 0.5), nan=[(0, 2), (0, 4)]),
                           dict(headings=[90, 270], steps=[(0, 1), (0, -1)], size=(4, 2), at=(-2.5, 0.5)),
                           dict(headings=[90], steps=[(0, 1)], size=(5, 1), at=(0.5, 0.5), cell=500.0, kw=dict(correction=True)),
                           dict(headings=[270], steps=[(0, -1)], size=(5, 1), at=(4.5, 0.5), cell=2.0, kw=dict(correction=dict(radius=20.0, refraction=0.25)))],
      thorough=[dict(ALL, size=(5, 5), at=(2.5, 2.5)), dict(AXES, size=(7, 3), at=(2.5, 1.5))],
      bounds="rasters up to 5x5, headings along rows, columns and diagonals, any elevations, viewer at a cell center or outside", budget_s=90),
]
