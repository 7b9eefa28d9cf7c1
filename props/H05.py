"""Grid lines and circles."""
import numpy as np

from symx.runner import H

from glimpse import helpers as h


def line(S):
    """A connected run of cells from start to end, each the nearest to the segment."""
    n = S.config["n"]
    a = [S.int("a%d" % i, -3, 3) for i in range(2)]
    d = [S.int("d%d" % i, -n, n) for i in range(2)]
    # which way the line goes
    sx, sy, steep = S.config["sx"], S.config["sy"], S.config["steep"]
    S.assume(S.and_(d[0] >= 0 if sx > 0 else d[0] < 0, d[1] >= 0 if sy > 0 else d[1] < 0))
    S.assume(S.abs(d[1]) > S.abs(d[0]) if steep else S.abs(d[1]) <= S.abs(d[0]))
    b = [a[0] + d[0], a[1] + d[1]]
    p = h.bresenham_line(a, b)
    major = 1 if steep else 0
    m = S.concrete(S.abs(d[major]))
    S.check(p.shape == (m + 1, 2), "a cell for each step of the longer axis")
    S.eq(p[0], S.array(a), "starts at the start")
    S.eq(p[m], S.array(b), "ends at the end")
    sign = (sy if steep else sx)
    for i in range(m + 1):
        S.eq(p[i, major], a[major] + sign * i, "one step along the longer axis")
        if m:
            # exact position of the segment: a + i d / m
            e = (p[i, 1 - major] - a[1 - major]) * m - sign * 0 - i * d[1 - major]
            S.check(S.and_(2 * e <= m, 2 * e >= -m), "the cell nearest the segment")
        if i:
            S.check(S.abs(p[i, 1 - major] - p[i - 1, 1 - major]) <= 1, "connected")
    S.reach()


def circle(S):
    """A closed, connected, symmetric loop of cells within a cell of the circle."""
    r = S.config["r"]
    c = [S.int("cx", -50, 50), S.int("cy", -50, 50)]
    p = h.bresenham_circle(c, r)
    n = len(p)
    q = [(p[i, 0] - c[0], p[i, 1] - c[1]) for i in range(n)]
    S.eq(p[0], p[n - 1], "closed")
    for i in range(n):
        d2 = q[i][0] * q[i][0] + q[i][1] * q[i][1]
        S.check(S.and_(d2 <= (r + 1) ** 2, d2 >= (r - 1) ** 2), "within a cell of the circle")
        if i:
            step = [S.abs(q[i][k] - q[i - 1][k]) for k in range(2)]
            S.check(S.and_(step[0] <= 1, step[1] <= 1, S.or_(step[0] > 0, step[1] > 0)), "connected, without repeats")
        for mirror in ((q[i][1], q[i][0]), (-q[i][0], q[i][1]), (q[i][0], -q[i][1])):
            S.check(S.or_(*[S.and_(mirror[0] == t[0], mirror[1] == t[1]) for t in q]), "symmetric")
    for i in range(1, n - 1):
        for j in range(i + 1, n):
            S.check(S.or_(q[i][0] != q[j][0], q[i][1] != q[j][1]), "each cell once")
    S.reach()


DIRS = [dict(sx=x, sy=y, steep=s) for x in (1, -1) for y in (1, -1) for s in (False, True)]
HARNESSES = [
    H("line", line, [dict(n=4, **d) for d in DIRS], thorough=[dict(n=9, **d) for d in DIRS], bounds="lines of up to 4 (thorough: 9) steps in every direction, any start in [-3,3]"),
    H("circle", circle, [dict(r=r) for r in (1, 2, 3, 4, 5, 6, 7, 8)], thorough=[dict(r=r) for r in (9, 10, 11, 12, 15, 20)], bounds="radii 1-8 (thorough: 20), any center in [-50,50]"),
]
