"""Orienting the cameras of an observer."""
import datetime
import io
import types

import numpy as np
import scipy.optimize

from symx.runner import H

import glimpse
from glimpse import optimize
from glimpse.optimize import ObserverCameras, RotationMatchesXYZ

ASSUMPTIONS = ["scipy.optimize.minimize evaluates the function anywhere and returns anything (replays use this optimizer, given as the method)",
               "angles are points of the unit circle, not their floating-point trigonometry"]


def turn(c, s):
    """Rows of world axes of camera right, down and forward."""
    C, X = c, s
    return [[C[0] * C[2] + X[0] * X[1] * X[2], C[0] * X[1] * X[2] - C[2] * X[0], -C[1] * X[2]],
            [C[2] * X[0] * X[1] - C[0] * X[2], X[0] * X[2] + C[0] * C[2] * X[1], -C[1] * C[2]],
            [C[1] * X[0], C[0] * C[1], X[1]]]


def along(R, x):
    return [sum(R[i][j] * x[i] for i in range(3)) for j in range(3)]


def slope(c, s, k, x):
    """Derivative of the direction by one angle: its terms are linear in its cosine and sine."""
    c1, s1 = list(c), list(s)
    c1[k], s1[k] = -s[k], c[k]
    c0, s0 = list(c), list(s)
    c0[k], s0[k] = 0, 0
    a, b = along(turn(c1, s1), x), along(turn(c0, s0), x)
    return [(p - q) * (np.pi / 180) for p, q in zip(a, b)]


class Image:
    def __init__(self, cam, day):
        self.cam, self.datetime, self.path = cam, datetime.datetime(2020, 1, 1 + day), "i%d.jpg" % day
        self.size = cam.imgsz


POINTS = [[4.0, 3.0], [5.5, 3.0], [8.0, 7.0], [4.0, 1.5], [0.0, -1.0]]


def fit(S):
    """Residuals, weights and anchors given to the optimizer; cameras set by its result."""
    n = S.config["n"]
    S.patch(optimize.sys, "stdout", io.StringIO())
    start = [(10.0, -5.0, 2.0), (12.0, -4.0, 1.0), (9.0, -5.0, 0.0)][:n]
    k = dict(imgsz=(8, 6), f=(2.0, 2.0))
    cams = [glimpse.Camera(viewdir=v, **k) for v in start]
    images = [Image(cam, i) for i, cam in enumerate(cams)]
    # points with rays of known length
    pairs = S.config["pairs"]
    grid = np.zeros((n, n), dtype=object)
    ends = {}
    for i, j, *m in pairs:
        uv = [[POINTS[q] for q in side] for side in m]
        ends[i, j] = [[[(p[0] - 4) / 2, (p[1] - 3) / 2, 1.0] for p in side] for side in uv]
        grid[i, j] = RotationMatchesXYZ(cams=(cams[i], cams[j]), uvs=[np.array(side) for side in uv])
    kw = {}
    anchors = [0]
    if "anchors" in S.config:
        anchors = kw["anchors"] = S.config["anchors"]
    model = ObserverCameras(glimpse.Observer(images), matches=grid, **kw)
    now = start
    if S.config.get("moved"):
        # cameras turned since
        now = [tuple(S.real("now%d%d" % (i, j), -9, 9) for j in range(3)) for i in range(n)]
        model.set_cameras(now)
        for cam, v in zip(cams, now):
            S.eq(cam.viewdir, v, "cameras set")
    turned = S.config.get("turned", [(i, j) for i in range(n) for j in range(3)])
    weight = 4.0 if pairs else S.real("weight", 0, 10)
    calls = []

    def minimize(fun, x0, args=(), method=None, jac=None, **extra):
        x0 = np.atleast_1d(x0) if not S.symbolic else x0
        S.check(getattr(x0, "ndim", None) == 1 and len(x0) == 3 * n, "initial values are a vector")
        S.eq(list(x0), [a for v in now for a in v], "initial values are the current view directions")
        S.check(not args, "no arguments")
        at = []
        for i in range(n):
            at += [S.angle("x%d%d" % (i, j)) if (i, j) in turned else start[i][j] for j in range(3)]
        x = S.array(at)
        if jac is True:
            value, gradient = fun(x.copy())
        else:
            value, gradient = fun(x.copy()), jac(x.copy())
        calls.append((at, value, gradient, method, extra))
        return types.SimpleNamespace(success=S.concrete(S.bool("success")), message="message", x=x)

    S.patch(optimize.scipy.optimize, "minimize", minimize)
    if S.config.get("extra"):
        result = model.fit(anchor_weight=weight, method="cg", tol=0.5)
    else:
        result = model.fit(anchor_weight=weight)
    S.check(len(calls) == 1, "one optimization")
    at, value, gradient, method, extra = calls[0]
    S.check(result.message == "message" and result.x is not None, "its result is returned")
    S.check(method.lower() == ("cg" if S.config.get("extra") else "bfgs") and extra == (dict(tol=0.5) if S.config.get("extra") else {}), "arguments passed on")
    for cam, v in zip(cams, start):
        S.eq(cam.viewdir, v, "cameras as they were")
    # objective
    rad = [S.array([at[3 * i + j] for j in range(3)]) * (np.pi / 180) for i in range(n)]
    c, s = [[S.cos(a) for a in r] for r in rad], [[S.sin(a) for a in r] for r in rad]
    total = sum((at[3 * i + j] - start[i][j]) ** 2 for i in anchors for j in range(3)) * weight / 2
    slopes = [[anchors.count(i) * weight * (at[3 * i + j] - start[i][j]) if i in anchors else 0 for j in range(3)] for i in range(n)]
    for (i, j), sides in ends.items():
        for p, q in zip(*sides):
            p, q = [[v * (1 / np.sqrt(sum(a * a for a in x))) for v in x] for x in (p, q)]
            d = [a - b for a, b in zip(along(turn(c[i], s[i]), p), along(turn(c[j], s[j]), q))]
            sign = []
            for v in d:
                S.assume(S.abs(v) >= 2**-16)
                sign.append(1 if v > 0 else -1)
            total = total + sum(g * v for g, v in zip(sign, d))
            for e in range(3):
                slopes[i][e] = slopes[i][e] + sum(g * v for g, v in zip(sign, slope(c[i], s[i], e, p)))
                slopes[j][e] = slopes[j][e] - sum(g * v for g, v in zip(sign, slope(c[j], s[j], e, q)))
    S.eq(value, total, "sum of distances between rays and from anchors", tol=1e-6)
    got = gradient.reshape(-1)
    for i in range(n):
        for e in range(3):
            S.eq(got[3 * i + e], slopes[i][e], "its derivatives", tol=1e-6)
    S.reach()


HARNESSES = [
    H("fit", fit, [
        dict(n=2, pairs=[]), dict(n=3, pairs=[], anchors=[0, 2], moved=True, extra=True), dict(n=2, pairs=[], anchors=[]), dict(n=2, pairs=[], anchors=[1, 0, 1])]
      + [dict(n=2, pairs=[(0, 1, [1], [2])], turned=[(i, j)], anchors=[j % 2]) for i in range(2) for j in range(3)]
      + [dict(n=2, pairs=[(0, 1, [1, 3], [2, 0])], turned=[(0, 0)]), dict(n=3, pairs=[(0, 1, [1], [2]), (1, 2, [4], [0])], turned=[(1, 1)], anchors=[2])],
      thorough=[dict(n=2, pairs=[(0, 1, [1], [2])], turned=[(0, 0), (1, 1)]), dict(n=2, pairs=[(0, 1, [4], [2])], turned=[(0, 0), (0, 1), (0, 2)]), dict(n=3, pairs=[(0, 1, [1], [2]), (1, 2, [4], [0]), (0, 2, [3], [3])], turned=[(2, 2)])],
      bounds="2-3 cameras of any original view directions, any angle of one of them for given pairs of points"),
]
