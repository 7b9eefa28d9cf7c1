"""Array statistics: normalization, distribution matching, masked filters."""
import itertools

import numpy as np

from symx.runner import H

from glimpse import helpers as h


def normalize(S):
    """Mean 0 and variance 1, preserving differences up to a positive factor."""
    n = S.config["n"]
    a = S.reals("a", n, -8, 8) if not S.config["two"] else S.reals("a", (2, n // 2), -8, 8)
    flat = a.reshape(-1)
    m = sum(flat[i] for i in range(n)) / n
    S.assume(sum((flat[i] - m) ** 2 for i in range(n)) >= 2**-6)
    keep = a.copy()
    b = h.normalize(a)
    S.eq(a, keep, "array unchanged")
    S.check(b.shape == a.shape, "shape")
    g = b.reshape(-1)
    S.eq(sum(g[i] for i in range(n)), 0.0, "mean 0")
    S.eq(sum(g[i] * g[i] for i in range(n)), float(n), "variance 1")
    for i in range(1, n):
        S.eq((g[i] - g[0]) * (flat[1] - flat[0]), (g[1] - g[0]) * (flat[i] - flat[0]), "linear")
    S.check(S.implies(flat[1] > flat[0], g[1] > g[0]), "order is preserved")
    S.reach()


def cdf(S):
    """Sorted unique values, the share of the array at or below each, and where each is."""
    n = S.config["n"]
    two = S.config["two"]
    a = S.reals("a", (2, n // 2) if two else n, -4, 4)
    v, q, inv = h.compute_cdf(a, return_inverse=True)
    flat = a.reshape(-1)
    m = len(v)
    for i in range(m):
        if i:
            S.check(v[i] > v[i - 1], "increasing values")
        S.eq(q[i] * n, sum(S.ite(flat[j] <= v[i], 1, 0) for j in range(n)) * 1.0, "share at or below the value")
    S.check(len(inv) == n, "an index for each element")
    for j in range(n):
        S.eq(v[inv[j]], flat[j], "indices rebuild the array")
    v2, q2 = h.compute_cdf(a)
    S.eq(v2, v, "same values")
    S.eq(q2, q, "same shares")
    S.reach()


def match(S):
    """Elements go to the value of the target distribution at their own share."""
    n, k = S.config["n"], S.config["k"]
    a = S.reals("a", (2, n // 2) if n % 2 == 0 else (1, n), -4, 4)
    flat = a.reshape(-1)
    if S.config["array"]:
        b = S.reals("b", k, -4, 4)
        bs = [b[i] for i in range(k)]
    else:
        b0 = S.real("b0", -4, 4)
        vals = [b0]
        for i in range(1, k):
            vals.append(vals[-1] + S.real("db%d" % i, 0.25, 2))
        shares = [(i + 1) / k for i in range(k)]
        b = (S.array(vals), S.array(shares))
        bs = vals
    keep = a.copy()
    out = h.match_cdf(a, b)
    S.eq(a, keep, "array unchanged")
    S.check(out.shape == a.shape, "shape")
    o = out.reshape(-1)
    # every element of the target lies on its distribution
    uniq = bs
    for j in range(n):
        share = sum(S.ite(flat[i] <= flat[j], 1, 0) for i in range(n)) * 1.0 / n
        # largest target value at or below the share, smallest at or above
        S.check(S.or_(*[o[j] >= t - 1e-9 for t in bs]) and True, "within the target")
        lo_ok, hi_ok = [], []
        for t in uniq:
            st = sum(S.ite(u <= t, 1, 0) for u in bs) * 1.0 / k
            S.check(S.implies(st <= share, o[j] >= t - 1e-9), "not below target values of no larger share")
            S.check(S.implies(st >= share, o[j] <= t + 1e-9), "not above target values of no smaller share")
    for i, j in itertools.combinations(range(n), 2):
        S.check(S.implies(flat[i] <= flat[j], o[i] <= o[j] + 1e-9), "order is preserved")
    S.reach()


def itself(S):
    """An array matched to its own distribution is unchanged."""
    a = S.reals("a", (2, 2), -4, 4)
    S.eq(h.match_cdf(a, a), a, "its own distribution")
    S.eq(h.match_cdf(a, h.compute_cdf(a)), a, "its own distribution, computed")
    S.reach()


def _linear(real):
    """The real linear filter, as the matrix of its responses to unit impulses."""
    cache = {}

    def f(S):
        def call(a, **kw):
            key = (a.shape, tuple(sorted(kw.items())))
            if key not in cache:
                n = int(np.prod(a.shape))
                cols = []
                for i in range(n):
                    e = np.zeros(n)
                    e[i] = 1
                    y = real(e.reshape(a.shape), **kw)
                    cols.append(y.ravel())
                cache[key] = np.array(cols).T, y.shape
            m, shape = cache[key]
            x = a.reshape(-1)
            out = [sum(float(m[i, j]) * x[j] for j in range(len(x)) if m[i, j]) for i in range(len(m))]
            out = S.array(out).reshape(shape)
            # integers are truncated, as the output has the type of the input
            return out.astype(int) if a.dtype.kind in "iu" else out

        return call

    return f


def _maximum(S, size):
    def call(a, size=size):
        ny, nx = a.shape
        s = size // 2
        out = []
        for i in range(ny):
            row = []
            for j in range(nx):
                v = None
                for di in range(-s, s + 1):
                    for dj in range(-s, s + 1):
                        p, q = i + di, j + dj
                        if 0 <= p < ny and 0 <= q < nx:
                            if v is None:
                                v = a[p, q]
                            else:
                                v = S.or_(v, a[p, q]) if a.dtype.kind == "b" else S.max(v, a[p, q])
                row.append(v)
            out.append(row)
        return S.array(out)

    return call


import scipy.ndimage

GAUSS = _linear(scipy.ndimage.gaussian_filter)


class Filters:
    """scipy.ndimage with the filters as encoded here."""

    def __init__(self, S):
        self.filters = self
        self.gaussian_filter = GAUSS(S)
        self.maximum_filter = _maximum(S, 3)


def gaussian(S):
    """Excluded cells do not influence included ones; weights are renormalized."""
    shape = S.config["shape"]
    n = shape[0] * shape[1]
    ints = S.config.get("ints", False)
    a = S.ints("a", shape, -8, 8) if ints else S.reals("a", shape, -8, 8)
    b = a.copy()
    mask = np.array([bool(S.concrete(m)) for m in S.bools("m", n)]).reshape(shape)
    S.assume(bool(mask.any()))
    for i, j in itertools.product(*map(range, shape)):
        if not mask[i, j]:
            b[i, j] = S.int("other%d%d" % (i, j), -8, 8) if ints else S.real("other%d%d" % (i, j), -8, 8)
    if S.symbolic:
        S.patch(h.scipy, "ndimage", Filters(S))
    kw = dict(sigma=1, truncate=1)
    fill = S.config["fill"]
    m = S.array(mask)
    keep = a.copy()
    x = h.gaussian_filter(a, mask=m, fill=fill, **kw)
    y = h.gaussian_filter(b, mask=m, fill=fill, **kw)
    S.eq(a, keep, "array unchanged")
    vals = [a[i, j] for i, j in itertools.product(*map(range, shape)) if mask[i, j]]
    for i, j in itertools.product(*map(range, shape)):
        if mask[i, j]:
            S.eq(x[i, j], y[i, j], "excluded cells have no influence")
            S.check(S.and_(S.or_(*[x[i, j] <= v + 1e-6 for v in vals]), S.or_(*[x[i, j] >= v - 1e-6 for v in vals])), "an average of included cells")
        elif not fill:
            S.eq(x[i, j], a[i, j], "excluded cells are kept")
        else:
            near = bool(np.any(mask[max(i - 1, 0):i + 2, max(j - 1, 0):j + 2]))
            if near:
                S.eq(x[i, j], y[i, j], "filled cells do not depend on excluded cells")
    c = S.real("c", -8, 8)
    flat = S.array([[c] * shape[1]] * shape[0])
    S.eq(h.gaussian_filter(flat, mask=m, fill=False, **kw), flat, "a constant array is unchanged")
    S.reach()


def maximum(S):
    """The largest included cell of each neighborhood."""
    shape = S.config["shape"]
    n = shape[0] * shape[1]
    if S.config.get("bools"):
        a = S.array(S.bools("a", n)).reshape(shape)
    else:
        a = S.reals("a", shape, -8, 8)
    mask = np.array([bool(S.concrete(m)) for m in S.bools("m", n)]).reshape(shape)
    if S.symbolic:
        S.patch(h.scipy, "ndimage", Filters(S))
    fill = S.config["fill"]
    keep = a.copy()
    x = h.maximum_filter(a, mask=S.array(mask), fill=fill, size=3)
    S.eq(a, keep, "array unchanged")
    for i, j in itertools.product(*map(range, shape)):
        near = [a[p, q] for p in range(max(i - 1, 0), min(i + 2, shape[0])) for q in range(max(j - 1, 0), min(j + 2, shape[1])) if mask[p, q]]
        if not mask[i, j] and not (fill and near):
            S.eq(x[i, j], a[i, j], "excluded cells are kept")
        else:
            if a.dtype.kind == "b":
                S.check(x[i, j] == S.or_(*near), "whether any included neighbor is set")
                continue
            S.check(S.and_(*[x[i, j] >= v for v in near]), "not less than any included neighbor")
            S.check(S.or_(*[x[i, j] == v for v in near]), "one of the included neighbors")
    S.reach()


HARNESSES = [
    H("normalize", normalize, [dict(n=2, two=False), dict(n=3, two=False)], thorough=[dict(n=4, two=True)], bounds="2-3 (thorough: 4) elements of variance at least 1/64/n", timeout_ms=15000),
    H("cdf", cdf, [dict(n=3, two=False), dict(n=4, two=True)], bounds="3-4 elements, ties included"),
    H("match", match, [dict(n=2, k=2, array=True), dict(n=3, k=2, array=True), dict(n=2, k=3, array=False), dict(n=3, k=3, array=False)], thorough=[dict(n=2, k=3, array=True), dict(n=4, k=3, array=False)], bounds="arrays of 2-3 (thorough: 4), targets of 2-3"),
    H("itself", itself, bounds="4 elements, ties included"),
    H("gaussian", gaussian, [dict(shape=s, fill=f) for s in ((1, 3), (2, 2)) for f in (False, True)] + [dict(shape=(1, 3), fill=False, ints=True)], thorough=[dict(shape=(2, 3), fill=False), dict(shape=(2, 3), fill=True)], bounds="arrays up to 2x2 (thorough: 2x3), every mask; the filter as its matrix of impulse responses"),
    H("maximum", maximum, [dict(shape=s, fill=f) for s in ((1, 3), (2, 2)) for f in (False, True)] + [dict(shape=(1, 3), fill=f, bools=True) for f in (False, True)], thorough=[dict(shape=(2, 3), fill=False), dict(shape=(2, 3), fill=True)], bounds="arrays up to 2x2 (thorough: 2x3), every mask"),
]
