"""Interpolation along lines."""
import numpy as np

from symx.runner import H

from glimpse import helpers as h


def vertices(S, n, nd=2):
    return S.reals("v", (n, nd), -8, 8)


def piecewise(S, x, v, q):
    """Value at distance q (within the ends) of the line through v at increasing x."""
    n, nd = len(x), v.shape[1]
    out = []
    for k in range(nd):
        r = v[n - 1, k]
        for i in reversed(range(n - 1)):
            f = (q - x[i]) / (x[i + 1] - x[i])
            r = S.ite(q <= x[i + 1], v[i, k] + f * (v[i + 1, k] - v[i, k]), r)
        out.append(S.ite(q <= x[0], v[0, k], r))
    return out


def measures(S, n, sign=1):
    x0 = S.real("x0", -8, 8)
    g = [S.real("g%d" % i, 0.25, 4) for i in range(n - 1)]
    x = [x0]
    for d in g:
        x.append(x[-1] + sign * d)
    return x


def at(S):
    """Requested distances give the point of the line at that distance."""
    n, sign = S.config["n"], S.config["sign"]
    v = vertices(S, n)
    x = measures(S, n, sign)
    q = S.reals("q", 2, -30, 30)
    lo, hi = (x[0], x[-1]) if sign > 0 else (x[-1], x[0])
    keep, kx = v.copy(), list(x)
    inside = S.and_(*[S.and_(a >= lo, a <= hi) for a in q])
    try:
        out = h.interpolate_line(v, x=S.array(x), xi=q)
    except ValueError:
        S.check(S.not_(inside), "distances within the line are accepted")
        S.reach("out")
        return
    S.check(inside, "distances beyond the line are refused")
    S.eq(v, keep, "vertices unchanged")
    xs, vs = (x, v) if sign > 0 else (x[::-1], v[::-1])
    for i in range(2):
        S.eq(out[i], S.array(piecewise(S, xs, vs, q[i])), "point at the distance")
    S.reach()


def fill(S):
    """Beyond the ends, the given values: before the first vertex, after the last."""
    n, sign = 2, S.config["sign"]
    v = vertices(S, n)
    x = measures(S, n, sign)
    q = S.reals("q", 2, -30, 30)
    how = S.config["fill"]
    a, b = S.real("fa", -9, 9), S.real("fb", -9, 9)
    arg = {"endpoints": "endpoints", "one": a, "pair": (a, b)}[how]
    out = h.interpolate_line(v, x=S.array(x), xi=q, error=False, fill=arg)
    for i in range(2):
        before = q[i] < x[0] if sign > 0 else q[i] > x[0]
        after = q[i] > x[-1] if sign > 0 else q[i] < x[-1]
        for k in range(2):
            if how == "endpoints":
                fb, fa = v[0, k], v[-1, k]
            else:
                fb, fa = a, (a if how == "one" else b)
            f = (q[i] - x[0]) / (x[-1] - x[0])
            mid = v[0, k] + f * (v[-1, k] - v[0, k])
            S.eq(out[i, k], S.ite(before, fb, S.ite(after, fa, mid)), "value beyond the ends or on the line")
    S.reach()


def number(S):
    """n evenly spaced points, the ends included."""
    n, m, sign = S.config["n"], S.config["m"], S.config["sign"]
    v = vertices(S, n)
    x = measures(S, n, sign)
    out = h.interpolate_line(v, x=S.array(x), n=m)
    S.check(out.shape == (m, 2), "number of points")
    xs, vs = (x, v) if sign > 0 else (x[::-1], v[::-1])
    for i in range(m):
        f = i / (m - 1) if m > 1 else 0
        S.eq(out[i], S.array(piecewise(S, xs, vs, x[0] + f * (x[-1] - x[0]))), "evenly spaced, from the first vertex")
    S.reach()


def spacing(S):
    """Points about dx apart."""
    v = vertices(S, 2, 1)
    x = measures(S, 2)
    dx = S.real("dx", 0.5, 5)
    length = x[1] - x[0]
    r = length / dx
    whole = S.config["whole"]
    if whole:
        S.assume(S.and_(dx == 0.5, S.or_(*[length == 0.5 * k for k in range(1, 5)])))
    else:
        for k in range(0, 18):
            S.assume(S.abs(r - k * 0.5) >= 2**-16)
    out = h.interpolate_line(v, x=S.array(x), dx=dx)
    m = len(out)
    if whole:
        S.eq(m * 1.0, r + 1, "the ends and every multiple of dx")
    else:
        S.check(m >= 2, "both ends")
        S.check(S.or_(m == 2, S.abs(length - dx * (m - 1)) <= dx * 0.5), "about dx apart")
        S.check(S.or_(m > 2, r <= 1.5), "about dx apart")
    S.eq(out[-1], v[1], "the end")
    for i in range(m):
        f = i / (m - 1)
        S.eq(out[i, 0], v[0, 0] + f * (v[1, 0] - v[0, 0]), "evenly spaced")
    S.raises(ValueError, lambda: h.interpolate_line(v), "one of xi, n, dx is required")
    S.reach()


def length(S):
    """Without measures, distance is Euclidean along the line."""
    a = S.reals("a", 2, -8, 8)
    leg = [S.real("l%d" % i, 0.25, 4) for i in range(2)]
    v = S.array([a, [a[0] + 3 * leg[0], a[1] - 4 * leg[0]], [a[0] + 3 * leg[0] + 12 * leg[1], a[1] - 4 * leg[0] + 5 * leg[1]]])
    q = S.real("q", 0, 60)
    x = [0, 5 * leg[0], 5 * leg[0] + 13 * leg[1]]
    S.assume(q <= x[2])
    out = h.interpolate_line(v, xi=[q])
    S.eq(out[0], S.array(piecewise(S, x, v, q)), "Euclidean distance along the line")
    S.reach()


HARNESSES = [
    H("at", at, [dict(n=n, sign=s) for n in (2, 3) for s in (1, -1)], thorough=[dict(n=4, sign=1), dict(n=4, sign=-1)], bounds="2-3 (thorough: 4) vertices, 2 distances, increasing and decreasing measures"),
    H("fill", fill, [dict(sign=s, fill=f) for s in (1, -1) for f in ("endpoints", "one", "pair")], bounds="2 vertices, 2 distances"),
    H("number", number, [dict(n=n, m=m, sign=s) for n, m in ((2, 1), (2, 3), (3, 2), (3, 4)) for s in (1, -1)], bounds="2-3 vertices, 1-4 points"),
    H("spacing", spacing, [dict(whole=w) for w in (True, False)], bounds="2 vertices, spacing in [1/2,5]"),
    H("length", length, bounds="3 vertices, legs of rational length"),
]
