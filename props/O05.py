"""Random sample consensus, and matches of keypoints."""
import itertools
import math

import numpy as np

from symx.runner import H

from glimpse import optimize
from props.common import Draws

ASSUMPTIONS = ["np.random.shuffle gives any order (the number of samples drawn twice is bounded)"]
M = 2**-12


class Shuffles(Draws):
    """Any orders, of which few repeat samples."""

    def __init__(self, S, limit):
        super().__init__(S)
        self.limit, self.count = limit, 0

    def shuffle(self, x):
        self.count += 1
        S = self.S
        if self.count > self.limit:
            S.assume(False)
        super().shuffle(x)


def drawn(S, limit):
    d = Shuffles(S, limit)
    S.patch(optimize.np, "random", d)
    return d


class Repeated(Exception):
    """A sample drawn before."""


def samples(S):
    """As many different samples as there are, or as are asked for."""
    n, size, limit = S.config["n"], S.config["size"], S.config.get("iterations")
    total = math.comb(size, n)
    want = total if limit is None else min(limit, total)
    drawn(S, want + S.config.get("repeats", 1))
    seen = []

    class Model:
        pass

    model = Model()
    model.size = size
    fits, tests = [], []

    def fit(index):
        new = [int(i) for i in index]
        if any(set(f) == set(new) for f in fits):
            S.check(False, "samples do not repeat")
            raise Repeated
        fits.append(new)
        return None

    model.fit = fit
    model.errors = lambda params, index=slice(None): 1 / 0
    k = {} if limit is None else dict(iterations=limit)
    try:
        S.raises(ValueError, lambda: optimize.ransac(model, n=n, max_error=1, min_inliers=1, **k), "no fit")
    except Repeated:
        return
    for f in fits:
        S.check(len(f) == n == len(set(f)) and all(0 <= i < size for i in f), "samples are of different points")
    S.check(len(fits) == want, "number of samples")
    model.size = n
    S.raises(ValueError, lambda: optimize.ransac(model, n=n, max_error=1, min_inliers=1), "samples of all points")
    S.reach()


def ransac(S):
    """The best fit of all points near the fit of a valid sample."""
    n, size, its = S.config["n"], S.config["size"], S.config["iterations"]
    few = S.config["min_inliers"]
    drawn(S, its)
    limit = S.real("max_error", 0.5, 2)
    E = {}

    class Model:
        """Any errors; fits may fail."""

        def __init__(self):
            self.size, self.calls, self.failed = size, [], {}

        def fit(self, index, **k):
            key = frozenset(int(i) for i in index)
            self.calls.append((key, k))
            name = "".join(str(i) for i in sorted(key))
            if S.config.get("fails"):
                if key not in self.failed:
                    self.failed[key] = S.concrete(S.bool("fails" + name))
                if self.failed[key]:
                    return None
            for i in range(size):
                if (key, i) not in E:
                    e = E[key, i] = S.real("e%s_%d" % (name, i), 0, 4)
                    S.assume(S.abs(e - limit) >= M)
            return key

        def errors(self, params, index=slice(None)):
            if not isinstance(index, slice):
                index = list(index)
                index = [i for i in range(size) if index[i]] if len(index) == size and isinstance(index[0], (bool, np.bool_)) else [int(i) for i in index]
            return S.array([E[params, int(i)] for i in np.arange(size)[index]])

    model = Model()
    fails = lambda key: (key, 0) not in E
    try:
        got = optimize.ransac(model, n=n, max_error=limit, min_inliers=few, iterations=its, **S.config.get("kwargs", {}))
    except ValueError:
        got = None
    for key, k in model.calls:
        S.check(k == S.config.get("kwargs", {}), "arguments passed on")
    tried = [key for key, k in model.calls if len(key) == n]
    S.check(len(set(tried)) == min(its, math.comb(size, n)), "samples tried")
    best = []
    for key in tried:
        if fails(key):
            continue
        near = [i for i in range(size) if i not in key and bool(E[key, i] < limit)]
        if len(near) == few:
            # whether the number is enough
            S.assume(False)
        if len(near) < few:
            continue
        better = key | frozenset(near)
        S.check(better in [c for c, k in model.calls], "points near a sample are fitted")
        if fails(better):
            continue
        best.append((sum(E[better, i] for i in better) / len(better), better))
    if not best:
        S.check(got is None, "no sample is valid")
        S.reach()
        return
    S.check(got is not None, "some sample is valid")
    params, inliers = got
    mine = [e for e, b in best if b == params]
    S.check(len(mine) > 0, "fit of a valid sample")
    for e, b in best:
        S.check(mine[0] <= e, "fit of least mean error")
    want = [i for i in range(size) if bool(E[params, i] <= limit)]
    S.check([int(i) for i in inliers] == want, "inliers are all points near the best fit")
    S.reach()


class Keypoint:
    def __init__(self, pt):
        self.pt = pt


class Match:
    def __init__(self, queryIdx, trainIdx, distance):
        self.queryIdx, self.trainIdx, self.distance = queryIdx, trainIdx, distance


class Matcher:
    """The nearest neighbors by any distances."""

    def __init__(self, S, D):
        self.S, self.D = S, D

    def knnMatch(self, query, train, k, mask=None):
        out = []
        for q in query:
            near = []
            for t in train:
                d = self.D[q[1:], t[1:]] if q[0] == "a" else self.D[t[1:], q[1:]]
                i = 0
                while i < len(near) and bool(near[i][0] < d):
                    i += 1
                near.insert(i, (d, t))
            out.append([Match(query.index(q), train.index(t), d) for d, t in near[:k]])
        return out


def match(S):
    """Matched are the nearest keypoints which pass every test asked for."""
    na, nb = S.config["sizes"]
    D = {(str(i), str(j)): S.real("d%d%d" % (i, j), 0.25, 4) for i in range(na) for j in range(nb)}
    for (a, b) in itertools.combinations(D, 2):
        if a[0] == b[0] or a[1] == b[1]:
            S.assume(S.abs(D[a] - D[b]) >= M)
    A = [(S.real("ua%d" % i, 0, 9), S.real("va%d" % i, 0, 9)) for i in range(na)]
    B = [(S.real("ub%d" % i, 0, 9), S.real("vb%d" % i, 0, 9)) for i in range(nb)]
    ka = [Keypoint(p) for p in A], ["a%d" % i for i in range(na)]
    kb = [Keypoint(p) for p in B], ["b%d" % i for i in range(nb)]
    by = S.config["by"]
    kw = {}
    if "ratio" in by:
        kw["max_ratio"] = S.real("max_ratio", 0.25, 0.9)
    if "distance" in by:
        kw["max_distance"] = S.real("max_distance", 0.5, 5)
    if "cross" in by:
        kw["cross_check"] = True
    if "ratios" in by:
        kw["return_ratios"] = True
    got = optimize.match_keypoints(ka, kb, matcher=Matcher(S, D), **kw)
    need = 2 if "ratio" in by or "ratios" in by else 1
    want = []
    if na >= need and nb >= need:
        for i in range(na):
            row = [D[str(i), str(j)] for j in range(nb)]
            j = next(j for j in range(nb) if all(bool(row[j] < row[q]) for q in range(nb) if q != j))
            second = [min_of(S, [row[q] for q in range(nb) if q != j])] if nb > 1 else [None]
            if "cross" in by and not all(bool(D[str(i), str(j)] < D[str(q), str(j)]) for q in range(na) if q != i):
                continue
            if "ratio" in by:
                lim = kw["max_ratio"] * second[0]
                S.assume(S.abs(row[j] - lim) >= M)
                if not row[j] < lim:
                    continue
            if "distance" in by:
                d2 = (A[i][0] - B[j][0])**2 + (A[i][1] - B[j][1])**2
                l2 = kw["max_distance"]**2
                S.assume(S.abs(d2 - l2) >= M)
                if not d2 < l2:
                    continue
            want.append((i, j, row[j], second[0]))
    S.check(len(got) == (3 if "ratios" in by else 2), "results")
    for side, points in zip(got, (A, B)):
        S.check(tuple(side.shape) == (len(want), 2), "pairs of coordinates")
    for k, (i, j, d, e) in enumerate(want):
        S.eq(got[0][k], list(A[i]), "coordinates of keypoints")
        S.eq(got[1][k], list(B[j]), "coordinates of their matches")
        if "ratios" in by:
            S.eq(got[2][k] * e, d, "ratios")
    if "ratios" in by:
        S.check(len(got[2]) == len(want), "one ratio for each match")
    S.reach()


def min_of(S, values):
    m = values[0]
    for v in values[1:]:
        if v < m:
            m = v
    return m


def polynomial(S):
    """The polynomial of least squares of the points chosen."""
    x, deg = S.config["x"], S.config["deg"]
    n = len(x)
    y = S.reals("y", n, -9, 9)
    xy = S.array([[x[i], y[i]] for i in range(n)])
    keep = xy.copy()
    model = optimize.Polynomial(xy, deg=deg) if deg != 1 else optimize.Polynomial(xy)
    S.check(model.size == n, "number of points")
    index = S.config.get("index", list(range(n)))
    k = dict(index=np.array(index)) if "index" in S.config else {}
    a = model.fit(**k)
    S.check(len(a) == deg + 1, "number of coefficients")
    value = lambda b, t: sum(b[j] * t ** (deg - j) for j in range(deg + 1))
    # residuals are orthogonal to every power
    for power in range(deg + 1):
        S.eq(sum((value(a, x[i]) - y[i]) * x[i] ** power for i in index), 0, "least squares", tol=1e-6)
    b = S.reals("b", deg + 1, -3, 3)
    S.eq(model.predict(b, **k), S.array([value(b, x[i]) for i in index]), "values of the polynomial")
    S.eq(model.errors(b, **k), S.array([S.abs(value(b, x[i]) - y[i]) for i in index]), "distances of points")
    S.eq(model.predict(b), S.array([value(b, t) for t in x]), "values of the polynomial, all")
    S.eq(model.errors(b), S.array([S.abs(value(b, t) - v) for t, v in zip(x, y)]), "distances of points, all")
    S.eq(model.xy, keep, "points unchanged")
    S.reach()


def consensus(S):
    """Points on a line are found among others."""
    np.random.seed(S.config["seed"])
    x = [0.0, 1.0, 2.0, 4.0]
    a, b = S.real("a", -2, 2), S.real("b", -5, 5)
    off = S.concrete(S.int("off", 0, 3))
    # farther than any line through it and another point passes from the rest
    e = S.real("e", 64, 90)
    y = [a * t + b + (e if i == off else 0) for i, t in enumerate(x)]
    model = optimize.Polynomial(S.array([[t, v] for t, v in zip(x, y)]))
    p, inliers = optimize.ransac(model, n=2, max_error=0.5, min_inliers=0, iterations=S.config["iterations"])
    S.eq(list(p), [a, b], "line", tol=1e-6)
    S.check(sorted(int(i) for i in inliers) == [i for i in range(4) if i != off], "points on the line")
    S.reach()


HARNESSES = [
    H("samples", samples, [dict(n=1, size=2, repeats=2), dict(n=2, size=3), dict(n=1, size=4, repeats=0, iterations=2), dict(n=3, size=4, repeats=0, iterations=2), dict(n=1, size=3, repeats=1), dict(n=1, size=3, iterations=1, repeats=0)],
      thorough=[dict(n=2, size=4, iterations=2), dict(n=1, size=4, repeats=0), dict(n=3, size=4, repeats=0), dict(n=2, size=5, iterations=2)],
      bounds="2-4 points, any order of samples with up to 2 drawn twice"),
    H("ransac", ransac, [
        dict(n=1, size=3, iterations=1, min_inliers=0), dict(n=2, size=3, iterations=2, min_inliers=0),
        dict(n=1, size=3, iterations=2, min_inliers=0), dict(n=2, size=4, iterations=1, min_inliers=1, kwargs=dict(a=1)), dict(n=2, size=3, iterations=2, min_inliers=0, fails=True)],
      thorough=[dict(n=1, size=3, iterations=2, min_inliers=1), dict(n=1, size=3, iterations=2, min_inliers=1, fails=True), dict(n=1, size=4, iterations=2, min_inliers=1), dict(n=1, size=3, iterations=3, min_inliers=0)],
      budget_s=200, max_paths=5000, bounds="3-4 points of any errors, up to 2 samples in any order"),
    H("match", match, [
        dict(sizes=(2, 2), by=[]), dict(sizes=(2, 2), by=["ratio"]), dict(sizes=(2, 2), by=["ratio", "distance"]), dict(sizes=(2, 2), by=["cross", "ratios"]),
        dict(sizes=(1, 2), by=["ratios", "ratio", "distance"]), dict(sizes=(2, 1), by=["cross", "distance"]), dict(sizes=(2, 3), by=["ratio", "cross"]), dict(sizes=(3, 2), by=["cross"]),
        dict(sizes=(2, 2), by=["ratios", "distance"]), dict(sizes=(0, 1), by=["distance"]), dict(sizes=(1, 0), by=["cross"]), dict(sizes=(2, 1), by=["ratios"])],
      bounds="up to 3 keypoints of any coordinates and distances"),
    H("polynomial", polynomial, [dict(x=(0.0, 1.0, 3.0), deg=1), dict(x=(-1.0, 0.5, 2.0, 4.0), deg=1, index=[3, 0, 1]), dict(x=(-1.0, 0.0, 1.0, 2.5), deg=2), dict(x=(1.0, 2.0), deg=1), dict(x=(1.0, -2.0, 0.0), deg=0)],
      bounds="2-4 points of any y, polynomials of degree 0-2"),
    H("consensus", consensus, [dict(iterations=6, seed=s) for s in range(3)], bounds="any line through 3 points at given x, and a point far from it"),
]
