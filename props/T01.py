"""Resampling of particles."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from glimpse.track import tracker as module
from props.common import patch_random

ASSUMPTIONS = ["np.random draws are arbitrary numbers in [0, 1)"]
SCALE = 16


def setup(S, n, concrete=None):
    """Particles that can be told apart, weights in (or near) sixteenths."""
    t = glimpse.Tracker(observers=[])
    draws = patch_random(S, module)
    if concrete is None:
        w = S.reals("w", n, 0, 4)
        S.assume(sum(w) >= 2**-4)
    else:
        w = S.array([float(v) for v in concrete])
    P = np.array([[10.0 * i + k for k in range(6)] for i in range(n)])
    t.particles, t.weights = S.array(P.tolist()), w.copy()
    return t, w, P, draws


def identify(S, t, w, P, label=""):
    """Each particle after is one of those before, with its own velocity and weight."""
    n = len(P)
    S.check(tuple(t.particles.shape) == (n, 6), "as many particles" + label)
    S.check(tuple(t.weights.shape) == (n,), "as many weights" + label)
    ids = []
    for p, v in zip(t.particles, t.weights):
        i = int(S.concrete(S.floori(p[0] / 10)))
        S.eq(p, S.array(P[i].tolist()), "particles are kept whole" + label)
        S.eq(v, w[i], "weights stay with particles" + label)
        ids.append(i)
    return ids


def resample(S):
    """Each particle is drawn as often as its weight and the method require, for any draws."""
    method, n = S.config["method"], S.config["n"]
    t, w, P, draws = setup(S, n, S.config.get("weights"))
    share = [n * v / sum(w) for v in w]
    if S.config.get("attribute"):
        t.resample_method = method
        t.resample_particles()
    else:
        t.resample_particles(method=method)
    before = P.copy()
    ids = identify(S, t, w, P)
    S.check(np.array_equal(before, P), "inputs unchanged")
    counts = [ids.count(i) for i in range(n)]
    # draws on the boundary between two particles are excluded
    u = draws.uniforms
    edges = [sum(share[:i + 1]) for i in range(n)]
    if method == "systematic":
        S.check(len(u) == 1, "one draw")
        for k in range(n):
            for e in edges:
                S.assume(S.or_(e - (k + u[0]) >= 2**-12, (k + u[0]) - e >= 2**-12, e >= n - 2**-12))
        for c, s in zip(counts, share):
            S.check(S.and_(c > s - 1 - 1e-6, c < s + 1 + 1e-6), "copies are the share rounded up or down")
    elif method == "stratified":
        S.check(len(u) == n, "a draw for each particle")
        for k in range(n):
            for e in edges:
                S.assume(S.or_(e - (k + u[k]) >= 2**-12, (k + u[k]) - e >= 2**-12, e >= n - 2**-12))
        for c, s in zip(counts, share):
            S.check(S.and_(c > s - 2 - 1e-6, c < s + 2 + 1e-6), "copies are within two of the share")
        # over any run of particles too
        for a, b in itertools.combinations(range(n + 1), 2):
            S.check(S.abs(sum(counts[a:b]) - sum(share[a:b])) < 2 + 1e-6, "copies of runs of particles")
    elif method == "residual":
        for c, s in zip(counts, share):
            S.check(c >= S.floor(s - 2**-30), "at least the whole part of the share")
    for c, s in zip(counts, share):
        S.check(S.implies(s <= 0, c == 0), "no copies of impossible particles")
    S.reach()


def ordered(S):
    """Which particle each draw selects: the one at its share of the cumulative weight."""
    method, w0 = S.config["method"], S.config["weights"]
    n = len(w0)
    t, w, P, draws = setup(S, n, w0)
    t.resample_particles(method=method)
    ids = identify(S, t, w, P)
    counts = [ids.count(i) for i in range(n)]
    u = draws.uniforms
    share = [n * v / sum(w0) for v in w0]
    if method == "residual":
        whole = [int(s) for s in share]
        rest = [s - k for s, k in zip(share, whole)]
        m = n - sum(whole)
        S.check(len(u) == m, "a draw for each remaining particle")
        cum = [sum(rest[:i]) / m for i in range(n + 1)] if m else [0.0] * (n + 1)
    else:
        whole, m = [0] * n, n
        cum = [sum(share[:i]) / n for i in range(n + 1)]
    for v in u:
        for c in cum:
            S.assume(S.abs(v - c) >= 2**-12)
    # the number of draws in each particle's part of the unit interval
    for i in range(n):
        got = counts[i] - whole[i]
        lo, hi = cum[i], cum[i + 1]
        want = sum(S.ite(S.and_(v > lo, v < hi), 1, 0) for v in u)
        S.eq(got, want, "copies in proportion to the share left")
    S.reach()


def rounding(S):
    """Also when arithmetic rounds: any small error of each operation, the largest draws."""
    method, n = S.config["method"], S.config["n"]
    t = glimpse.Tracker(observers=[])
    P = np.array([[10.0 * i + k for k in range(6)] for i in range(n)])
    t.particles, t.weights = S.array(P.tolist()), S.array([1.0] * n)
    u = S.real("u", 1 - 2**-53, 1 - 2**-53)

    class Largest:
        def random(self, size=None):
            return u if size is None else S.array([u] * size)

    S.patch(module.np, "random", Largest())
    S.rounding(2**-53)
    t.resample_particles(method=method)
    S.rounding(0)
    identify(S, t, S.array([1.0] * n), P)
    S.reach()


W3 = [(4, 8, 4), (1, 14, 1), (0, 9, 7), (16, 0, 0), (5, 5, 6)]
W4 = [(4, 4, 4, 4), (1, 2, 4, 9), (7, 0, 8, 1), (6, 6, 2, 2), (15, 0, 0, 1)]
HARNESSES = [
    H("resample", resample, [dict(method=m, n=3) for m in ("systematic", "stratified", "choice")] + [dict(method="systematic", n=2, attribute=True), dict(method="residual", n=2)],
      thorough=[dict(method="systematic", n=4), dict(method="residual", n=3), dict(method="systematic", n=5)],
      bounds="2-3 (thorough: 5) particles with any weights, any draws"),
    H("ordered", ordered, [dict(method="residual", weights=w) for w in W3 + W4] + [dict(method="choice", weights=w) for w in W3], bounds="3-4 particles of fixed weights, any draws"),
    H("rounding", rounding, [dict(method=m, n=n) for m in ("systematic", "stratified") for n in (3, 6)], bounds="3 and 6 particles of equal weight, the largest draw, errors up to 2^-53 in each operation"),
]
