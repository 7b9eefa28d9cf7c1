"""Snapping points and boxes to grid positions."""
import itertools

import numpy as np

from symx.runner import H

import glimpse

ASSUMPTIONS = ["points within 2^-12 cells of halfway between positions are decided only where they are exactly halfway"]


def grid(S, symbolic=True):
    nx, ny = S.config.get("size", (3, 2))
    flip = S.config.get("flip", (False, True))
    o = [S.real("o%d" % k, -8, 8) if symbolic else (2.5, -3.0)[k] for k in range(2)]
    d = [c * (-1 if f else 1) for c, f in zip((1.5, 0.75), flip)]
    lim = [S.array([o[k], o[k] + n * d[k]]) for k, n in enumerate((nx, ny))]
    g = glimpse.Raster(np.zeros((ny, nx)), x=lim[0], y=lim[1]) if S.config.get("raster") else glimpse.Grid((nx, ny), x=lim[0], y=lim[1])
    return g, o, d, (nx, ny)


MODES = {"centers": dict(centers=True, edges=False), "edges": dict(centers=False, edges=True), "both": dict(centers=True, edges=True)}
# spacing of positions and the first of them, in cells
STEP = {"centers": (1, 0.5), "edges": (1, 0), "both": (0.5, 0)}


def snap(S):
    """The nearest of the positions asked for."""
    g, o, d, n = grid(S)
    mode = S.config["mode"]
    step, first = STEP[mode]
    u, want = [], []
    for k in range(2):
        # from halfway before to halfway after the i-th position
        i = S.concrete(S.int("i%d" % k, -1 if mode == "centers" else 0, int((n[k] - first) / step)))
        p = first + i * step
        f = S.real("f%d" % k, -0.5 + 2**-12, 0.5 - 2**-12)
        u.append(p + f * step)
        want.append(o[k] + p * d[k])
        # not on (or next to) the outer edge
        S.assume(S.or_(u[k] - n[k] >= 2**-12, n[k] - u[k] >= 2**-12))
    xy = S.array([[o[k] + u[k] * d[k] for k in range(2)], [o[k] + 0.75 * d[k] for k in range(2)]])
    keep = xy.copy()
    got = g.snap_xy(xy, inbounds=S.config["inbounds"], **MODES[mode])
    S.check(got.shape == (2, 2), "shape")
    S.eq(got[0], S.array(want), "nearest position")
    S.eq(got[1], S.array([o[k] + {"centers": 0.5, "edges": 1, "both": 1.0}[mode] * d[k] for k in range(2)]) if mode != "both" else got[1], "each point")
    S.eq(xy, keep, "points unchanged")
    S.reach()


def halfway(S):
    """Halfway points go to higher indices, outer edges to interior centers when inbounds."""
    g, o, d, n = grid(S, symbolic=False)
    mode = S.config["mode"]
    step, first = STEP[mode]
    i, j = [S.concrete(S.int("i%d" % k, 0, int(n[k] / step) - (0 if mode == "centers" else 1))) for k in range(2)]
    inb = S.concrete(S.bool("inbounds"))
    h = 0 if mode == "centers" else step / 2
    xy = S.array([[o[0] + (i * step + h) * d[0], o[1] + (j * step + h) * d[1]]])
    got = g.snap_xy(xy, inbounds=inb, **MODES[mode])
    want = []
    for k, q in enumerate((i, j)):
        p = q * step + h + step / 2
        if mode == "centers" and inb and q == n[k]:
            p -= 1
        want.append(o[k] + p * d[k])
    S.eq(got, S.array([want]), "halfway to higher indices")
    S.reach()


def neither(S):
    """Neither edges nor centers to snap to: refused."""
    g, o, d, n = grid(S)
    S.raises(ValueError, lambda: g.snap_xy(S.array([[o[0], o[1]]])), "centers or edges")
    S.reach()


def box(S):
    """The corners of the box, each at its nearest position; boxes beyond the grid are refused."""
    g, o, d, n = grid(S, symbolic=False)
    mode = S.config["mode"]
    lo = [S.min(o[k], o[k] + n[k] * d[k]) for k in range(2)]
    hi = [S.max(o[k], o[k] + n[k] * d[k]) for k in range(2)]
    size = [S.real("s%d" % k, 2**-6, 6) for k in range(2)]
    f = [S.real("c%d" % k, -0.25, 1.25) for k in range(2)]
    center = [lo[k] + f[k] * n[k] * abs(d[k]) for k in range(2)]
    a = [center[k] - size[k] / 2 for k in range(2)]
    b = [center[k] + size[k] / 2 for k in range(2)]
    for k in range(2):
        for x, y in ((a[k], lo[k]), (b[k], hi[k]), (a[k], hi[k]), (b[k], lo[k])):
            S.assume(S.or_(x - y >= 2**-10, y - x >= 2**-10))
    inside = S.and_(*[S.and_(a[k] > lo[k], b[k] < hi[k]) for k in range(2)])
    call = lambda: g.snap_box(S.array(center), S.array(size), **MODES[mode])
    if not inside:
        S.raises(IndexError, call, "beyond the grid")
        S.reach("beyond")
        return
    got = call()
    S.check(got.shape == (4,), "shape")
    step, first = STEP[mode]
    for k, (p, q) in enumerate(zip(a + b, got)):
        k %= 2
        # at a position, and no farther than half of the spacing
        S.check(S.abs(p - q) <= step * abs(d[k]) / 2 + 1e-9, "near the corner")
        m = (q - o[k]) / d[k]
        S.check(S.or_(*[S.abs(m - (first + i * step)) <= 1e-9 for i in range(int(n[k] / step) + 1)]), "at a position")
    S.reach()


def touching(S):
    """Corners of a box on the edges of the grid are in it, and go where points there go."""
    g, o, d, n = grid(S, symbolic=False)
    mode, inb = S.config["mode"], S.config["inbounds"]
    lo = [min(o[k], o[k] + n[k] * d[k]) for k in range(2)]
    hi = [max(o[k], o[k] + n[k] * d[k]) for k in range(2)]
    a, b = [], []
    for k in range(2):
        at = S.concrete(S.int("at%d" % k, 0, 2))  # both edges, the lower one, the upper one
        w = (n[k] + 0.0) if at == 0 else S.real("w%d" % k, 0.125, n[k] - 0.125)
        m = w - S.floori(w) if at else 0
        if at:
            S.assume(S.and_(*[S.abs(m - q) >= 2**-6 for q in (0, 0.25, 0.5, 0.75, 1)]))
        w = w * abs(d[k])
        a.append(hi[k] - w if at == 2 else lo[k])
        b.append(lo[k] + w if at == 1 else hi[k])
    size = S.array([b[k] - a[k] for k in range(2)])
    center = S.array([(b[k] + a[k]) / 2 for k in range(2)])
    got = g.snap_box(center, size, inbounds=inb, **MODES[mode])
    S.eq(got, g.snap_xy(S.array([a, b]), inbounds=inb, **MODES[mode]).flatten(), "as its corners")
    S.reach()


CASES = [dict(mode=m, flip=f, raster=r, inbounds=i) for m in MODES for f, r, i in (((False, True), False, True), ((True, False), True, False))]
HARNESSES = [
    H("snap", snap, CASES, bounds="3x2 grids at any position, points anywhere up to a cell beyond"),
    H("halfway", halfway, [dict(mode=m, flip=f) for m in MODES for f in ((False, True), (True, False))], bounds="all halfway points of a 3x2 grid"),
    H("neither", neither),
    H("touching", touching, [dict(mode=m, flip=f, inbounds=i) for m in MODES for f in ((False, True), (True, False)) for i in (False, True)], bounds="3x2 grids, boxes of any size at their edges"),
    H("box", box, [dict(mode=m, flip=f, size=(2, 1) if m == "both" else (3, 2)) for m in MODES for f in ((False, True), (True, False))], bounds="3x2 and 2x1 grids, boxes of any size anywhere"),
]
