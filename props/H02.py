"""Operations on boxes: membership, intersection, bounds, outline, lattice."""
import itertools

import numpy as np

from symx.runner import H

from glimpse import helpers as h


def membership(S):
    """Points are in boxes if and only if every coordinate is within the limits."""
    nd = S.config["ndim"]
    p = S.reals("p", (2, nd), -8, 8)
    lo, hi = S.reals("lo", nd, -8, 8), S.reals("hi", nd, -8, 8)
    got = h.in_box(p, np.concatenate((lo, hi)))
    for i in range(2):
        S.eq(got[i], S.and_(*[S.and_(p[i, k] >= lo[k], p[i, k] <= hi[k]) for k in range(nd)]), "in or on the box")
    S.reach()


def intersection(S):
    """The intersection holds exactly what all boxes hold, or is refused if they share nothing."""
    nd, n = S.config["ndim"], S.config["n"]
    lo, hi = S.reals("lo", (n, nd), -8, 8), S.reals("hi", (n, nd), -8, 8)
    for i in range(n):
        for k in range(nd):
            S.assume(hi[i, k] > lo[i, k])
    boxes = np.column_stack((lo, hi))
    q = S.reals("q", nd, -8, 8)  # any point
    both = S.and_(*[S.and_(q[k] >= lo[i, k], q[k] <= hi[i, k]) for i in range(n) for k in range(nd)])
    strictly = S.and_(*[S.and_(q[k] > lo[i, k], q[k] < hi[i, k]) for i in range(n) for k in range(nd)])
    try:
        out = h.intersect_boxes(boxes)
    except ValueError:
        S.check(S.not_(strictly), "boxes that share interior points intersect")
        S.reach("disjoint")
        return
    S.check(out.shape == (2 * nd,), "format of the box")
    for k in range(nd):
        S.check(out[k] < out[nd + k], "the intersection is a box")
    S.eq(both, S.and_(*[S.and_(q[k] >= out[k], q[k] <= out[nd + k]) for k in range(nd)]), "the points in every box")
    S.reach()


def undefined(S):
    """Undefined bounds do not limit the intersection; odd lengths are refused."""
    a = S.reals("a", 4, 0, 4)
    S.assume(S.and_(a[2] > a[0], a[3] > a[1]))
    b = S.array([np.nan, 1.0, np.nan, 2.0])
    try:
        out = h.intersect_boxes([a, b])
    except ValueError:
        S.check(S.or_(a[1] >= 2, a[3] <= 1), "boxes intersect")
        return
    S.eq(out, S.array([a[0], S.max(a[1], 1.0), a[2], S.min(a[3], 2.0)]), "bounds")
    S.raises(ValueError, lambda: h.intersect_boxes([a[:3], a[:3]]), "odd length")
    S.raises(ValueError, lambda: h.unravel_box(a[:3]), "odd length")
    S.reach()


def bounds(S):
    """The smallest box around points."""
    nd, n = S.config["ndim"], S.config["n"]
    p = S.reals("p", (n, nd), -8, 8)
    box = h.bounding_box(p)
    S.check(box.shape == (2 * nd,), "format of the box")
    for k in range(nd):
        S.check(S.and_(*[S.and_(box[k] <= p[i, k], p[i, k] <= box[nd + k]) for i in range(n)]), "holds every point")
        S.check(S.or_(*[p[i, k] == box[k] for i in range(n)]), "lower bound is tight")
        S.check(S.or_(*[p[i, k] == box[nd + k] for i in range(n)]), "upper bound is tight")
    S.reach()


def outline(S):
    """The polygon of a box visits its corners in order."""
    b = S.reals("b", 4, -8, 8)
    poly = h.box_to_polygon(b)
    S.check(poly.shape == (5, 2), "closed polygon")
    S.eq(poly[0], poly[4], "closed polygon")
    area = sum(poly[i, 0] * poly[i + 1, 1] - poly[i + 1, 0] * poly[i, 1] for i in range(4)) / 2
    S.eq(S.abs(area), S.abs((b[2] - b[0]) * (b[3] - b[1])), "area")
    for i in range(4):
        S.check(S.and_(S.or_(poly[i, 0] == b[0], poly[i, 0] == b[2]), S.or_(poly[i, 1] == b[1], poly[i, 1] == b[3])), "corners")
    S.eq(h.unravel_box(b), S.array([[b[0], b[1]], [b[2], b[3]]]), "two rows")
    S.reach()


def lattice(S):
    """Every point of the aligned lattice in the box, and no other."""
    nd = S.config["ndim"]
    lo = S.reals("lo", nd, -4, 4)
    size = S.reals("size", nd, 0.125, 3)
    st = [S.real("st%d" % k, 0.75, 4) for k in range(nd)]
    step = st[0] if S.config["scalar"] else st
    if S.config["scalar"]:
        st = [st[0]] * nd
    box = np.concatenate((lo, lo + size))
    snap = None
    if S.config["snap"]:
        # the lattice passes at a fraction of a step below the box
        cell = [S.concrete(S.int("cell%d" % k, -3, 3)) + S.real("part%d" % k, 2**-16, 1 - 2**-16) for k in range(nd)]
        snap = S.array([lo[k] - cell[k] * st[k] for k in range(nd)])
    for k in range(nd):
        o = lo[k] if snap is None else snap[k]
        # decided in floats: no lattice point at a bound (except the box minimum)
        for e in [lo[k] + size[k]]:
            r = (e - o) / st[k]
            r = r - S.floor(r)
            S.assume(S.and_(r >= 2**-16, r <= 1 - 2**-16))
    vec = h.box_to_grid(box, step, snap=snap, mode="vectors")
    S.check(len(vec) == nd, "a vector for each dimension")
    for k in range(nd):
        v = vec[k]
        o = lo[k] if snap is None else snap[k]
        m = len(v)
        if m == 0:
            r = (lo[k] - o) / st[k]
            S.check(S.floor(r + 1) * st[k] + o > lo[k] + size[k], "no lattice point is left out")
            continue
        for i in range(m):
            S.check(S.and_(v[i] >= lo[k] - 1e-9, v[i] <= lo[k] + size[k] + 1e-9), "points are in the box")
            if i:
                S.eq(v[i] - v[i - 1], st[k], "spacing")
        S.check(S.and_(v[0] - st[k] < lo[k] + 1e-9, v[m - 1] + st[k] > lo[k] + size[k] - 1e-9), "no lattice point is left out")
        if snap is None:
            S.eq(v[0], lo[k], "aligned to the box minimum")
        else:
            r = (v[0] - o) / st[k]
            S.eq(r, S.floor(r + 0.5), "aligned to the snap point")
    S.reach()


def formats(S):
    """Vectors, grids and points describe the same lattice, rows of x first."""
    lo = S.reals("lo", 2, -4, 4)
    box = [lo[0], lo[1], lo[0] + 2.5, lo[1] + 1.5]
    x, y = h.box_to_grid(box, 1, mode="vectors")
    X, Y = h.box_to_grid(box, 1)
    P = h.box_to_grid(box, 1, mode="points")
    S.check(X.shape == (2, 3) and Y.shape == (2, 3) and P.shape == (6, 2), "shapes")
    for j, i in itertools.product(range(2), range(3)):
        S.eq(X[j, i], x[i], "x")
        S.eq(Y[j, i], y[j], "y")
        S.eq(P[j * 3 + i], S.array([x[i], y[j]]), "points")
    S.raises(ValueError, lambda: h.box_to_grid(box, 1, mode="rows"), "unknown mode")
    S.reach()


def distances(S):
    """Pairwise distances, squared or not."""
    x, y = S.reals("x", 2, -9, 9), S.reals("y", 3, -9, 9)
    S.patch(h.scipy.spatial.distance, "cdist", _cdist(S))
    d = h.pairwise_distance(x, y, metric="cityblock")
    S.check(d.shape == (2, 3), "shape")
    for i, j in itertools.product(range(2), range(3)):
        S.eq(d[i, j], S.abs(x[i] - y[j]), "distance from each to each")
    S.reach()


def _cdist(S):
    def cdist(a, b, metric="euclidean", p=2):
        out = []
        for u in a:
            row = []
            for v in b:
                e = [S.abs(u[k] - v[k]) for k in range(len(u))]
                if metric == "cityblock" or (metric == "minkowski" and p == 1):
                    row.append(sum(e))
                elif metric == "sqeuclidean":
                    row.append(sum(t * t for t in e))
                else:
                    row.append(S.sqrt(sum(t * t for t in e)))
            out.append(row)
        return S.array(out)

    return cdist


HARNESSES = [
    H("membership", membership, [dict(ndim=n) for n in (1, 2, 3)], bounds="2 points, up to 3 dimensions"),
    H("intersection", intersection, [dict(ndim=2, n=2), dict(ndim=1, n=3), dict(ndim=3, n=2)], bounds="up to 3 boxes and 3 dimensions"),
    H("undefined", undefined, bounds="two boxes"),
    H("bounds", bounds, [dict(ndim=2, n=3), dict(ndim=3, n=2), dict(ndim=1, n=4)], bounds="up to 4 points"),
    H("outline", outline, bounds="any box"),
    H("lattice", lattice, [dict(ndim=1, snap=False, scalar=True), dict(ndim=1, snap=True, scalar=True), dict(ndim=2, snap=False, scalar=False), dict(ndim=2, snap=False, scalar=True)],
      thorough=[dict(ndim=2, snap=True, scalar=False)],
      bounds="box sides in [1/8,3], steps in [3/4,4]"),
    H("formats", formats, bounds="2-d lattice of 3x2 points"),
    H("distances", distances, bounds="2x3 one-dimensional points"),
]
