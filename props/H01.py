"""Rays, edges and lines against axis-aligned boxes."""
import numpy as np

from symx.runner import H

from glimpse import helpers as h


def box_of(S, ndim, tag="b"):
    lo = S.reals(tag + "lo", ndim, -8, 8)
    hi = S.reals(tag + "hi", ndim, -8, 8)
    for i in range(ndim):
        S.assume(hi[i] - lo[i] >= 2**-6)
    return lo, hi


def inside(S, p, lo, hi, tol=0):
    return S.and_(*[S.and_(p[i] >= lo[i] - tol, p[i] <= hi[i] + tol) for i in range(len(lo))])


def direction(S, signs, tag="d"):
    out = []
    for i, s in enumerate(signs):
        out.append(0.0 if s == 0 else s * S.real("%s%d" % (tag, i), 0.125, 4))
    return out


def rays(S):
    """Entrances and exits are the first and last point of the ray in the box."""
    signs = S.config["signs"]
    ndim = len(signs)
    lo, hi = box_of(S, ndim)
    o = S.reals("o", ndim, -8, 8)
    d = direction(S, signs)
    box = np.concatenate((lo, hi))
    D = S.array([d])
    t0, t1 = h.intersect_rays_box(o, D, box, t=True)
    S.check(t0.shape == (1, 1) and t1.shape == (1, 1), "shape")
    t0, t1 = t0[0, 0], t1[0, 0]
    s = S.real("s", 0, 200)  # any point of the ray
    p = [o[i] + s * d[i] for i in range(ndim)]
    within = inside(S, o, lo, hi)
    here = inside(S, p, lo, hi)
    if S.isnan(t1):
        S.check(S.not_(here), "a ray without an exit does not meet the box")
    else:
        q = [o[i] + t1 * d[i] for i in range(ndim)]
        S.check(t1 >= 0, "exit is not behind the origin")
        S.check(inside(S, q, lo, hi, 1e-6), "exit is on the box")
        S.check(S.implies(here, s <= t1 + 1e-6), "no point of the box is beyond the exit")
    if S.isnan(t0):
        if not S.isnan(t1):
            S.check(within, "a ray that exits without entering starts in the box")
    else:
        S.check(S.not_(S.isnan(t1)), "a ray that enters exits")
        q = [o[i] + t0 * d[i] for i in range(ndim)]
        S.check(t0 >= 0, "entrance is not behind the origin")
        S.check(inside(S, q, lo, hi, 1e-6), "entrance is on the box")
        S.check(S.implies(here, s >= t0 - 1e-6), "no point of the box is before the entrance")
    S.reach()


def absolute(S):
    """Absolute coordinates are the multiples of each direction from the common origin."""
    o = S.reals("o", 2, -8, 8)
    D = S.array([direction(S, (1, 1), "a"), direction(S, (-1, 1), "b")])
    box = [-1, 0, 2, 3]
    t0, t1 = h.intersect_rays_box(o, D, box, t=True)
    e0, e1 = h.intersect_rays_box(o, D, box)
    for t, e in ((t0, e0), (t1, e1)):
        for i in range(2):
            if S.isnan(t[i, 0]):
                S.check(S.and_(S.isnan(e[i, 0]), S.isnan(e[i, 1])), "misses are undefined")
            else:
                S.eq(e[i], S.array([o[k] + t[i, 0] * D[i, k] for k in range(2)]), "absolute coordinates")
    # each ray is as if alone
    for i in range(2):
        a0, a1 = h.intersect_rays_box(o, D[i:i + 1], box, t=True)
        S.eq(a0[0], t0[i], "entrance does not depend on the other rays")
        S.eq(a1[0], t1[i], "exit does not depend on the other rays")
    S.reach()


def edge(S):
    """An edge with one end in the box crosses its boundary where the box ends."""
    signs = S.config["signs"]
    ndim = len(signs)
    lo, hi = np.array([0.0, 0.0, 0.0][:ndim]), np.array([2.0, 1.0, 4.0][:ndim])
    o = S.reals("o", ndim, -8, 8)
    d = direction(S, signs)
    e = [o[i] + d[i] for i in range(ndim)]
    a, b = inside(S, o, lo, hi), inside(S, e, lo, hi)
    S.assume(a != b if not S.config["out"] else S.and_(S.not_(a), S.not_(b)))
    t = h.intersect_edge_box(o, S.array(d), np.concatenate((lo, hi)))
    s = S.real("s", 0, 1)
    p = [o[i] + s * d[i] for i in range(ndim)]
    here = inside(S, p, lo, hi)
    if S.config["out"]:
        if t is None:
            S.check(S.not_(here), "an edge without an intersection misses the box")
        else:
            q = [o[i] + t * d[i] for i in range(ndim)]
            S.check(S.and_(t > 0, t < 1, inside(S, q, lo, hi, 1e-6)), "intersection is on the edge and the box")
            S.check(S.implies(here, s >= t - 1e-6), "the first intersection is returned")
    else:
        ts = 0 if t is None else t
        if t is None:
            # the only point of the edge in the box is the vertex itself
            S.check(S.implies(here, inside(S, p, lo, hi) if False else S.or_(s <= 1e-6, s >= 1 - 1e-6)), "no intersection: only the vertex is on the box")
        else:
            q = [o[i] + t * d[i] for i in range(ndim)]
            S.check(S.and_(t > 0, t < 1, inside(S, q, lo, hi, 1e-6)), "intersection is on the edge and the box")
            S.check(S.implies(S.and_(a, here), s <= t + 1e-6), "exit is where the box ends")
            S.check(S.implies(S.and_(b, here), s >= t - 1e-6), "entrance is where the box begins")
    S.reach()


def polyline(S):
    """A clipped line is the runs of vertices in the box, extended to its boundary."""
    n = S.config["n"]
    x = [S.real("x%d" % i, -4, 4) for i in range(n)]
    y = [0.25 * i for i in range(n)]
    for i in range(n):
        # vertices on the boundary are the subject of `edge`
        for v in (-1, 1):
            S.assume(S.abs(x[i] - v) >= 2**-6)
    cols = [x, y]
    if S.config["m"]:
        cols.append([2.0 * i for i in range(n)])
    line = np.column_stack([S.array(c) for c in cols])
    keep = line.copy()
    out = h.clip_polyline_box(line, [-1, -9, 1, 9], t=S.config["m"])
    S.eq(line, keep, "the line is unchanged")
    isin = [bool(S.and_(a > -1, a < 1)) for a in x]
    runs, i = [], 0
    while i < n:
        if isin[i]:
            j = i
            while j + 1 < n and isin[j + 1]:
                j += 1
            runs.append((i, j))
            i = j
        i += 1
    S.check(len(out) == len(runs), "a segment for each run of vertices in the box")
    for seg, (i, j) in zip(out, runs):
        want = []
        if i > 0:
            bx = S.ite(x[i - 1] < -1, -1.0, 1.0)
            f = (bx - x[i - 1]) / (x[i] - x[i - 1])
            want.append([bx] + [c[i - 1] + f * (c[i] - c[i - 1]) for c in cols[1:]])
        want += [[c[k] for c in cols] for k in range(i, j + 1)]
        if j < n - 1:
            bx = S.ite(x[j + 1] < -1, -1.0, 1.0)
            f = (bx - x[j]) / (x[j + 1] - x[j])
            want.append([bx] + [c[j] + f * (c[j + 1] - c[j]) for c in cols[1:]])
        S.eq(seg, S.array(want), "vertices in the box and on its boundary, with measures")
    S.reach()


S2 = [(a, b) for a in (1, -1, 0) for b in (1, -1, 0) if (a, b) != (0, 0)]
S3 = [(1, 1, 1), (-1, 1, -1), (1, -1, 0), (0, 0, 1), (-1, 0, 1), (0, -1, -1)]
HARNESSES = [
    H("rays", rays, [dict(signs=s) for s in S2 + S3], bounds="one ray, 2 and 3 dimensions, every sign pattern in 2-d; |direction| in [1/8,4] or 0"),
    H("absolute", absolute, bounds="two rays, one box"),
    H("edge", edge, [dict(signs=s, out=o) for s in ((1, 1), (-1, 1), (1, 0), (0, -1), (1, -1, 1)) for o in (False, True)], bounds="one edge, 2 and 3 dimensions"),
    H("polyline", polyline, [dict(n=n, m=m) for n in (2, 3) for m in (False, True)], thorough=[dict(n=4, m=False), dict(n=5, m=True)], bounds="2-3 (thorough: 5) vertices"),
]
