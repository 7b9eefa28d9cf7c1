"""Weights and statistics of particles."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from props.common import patch_interpolation

ASSUMPTIONS = []


class Known(glimpse.Tracker):
    """A tracker for which the log likelihoods of observers are given."""

    given = None

    def compute_observer_log_likelihoods(self, obs, img):
        self.asked.append((obs, img))
        return None if img is None else self.given[obs, img]


def particles(S, n):
    t = Known(observers=[None, None])
    t.asked, t.given = [], {}
    P = S.reals("p", (n, 6), -8, 8)
    if S.config.get("base"):
        P = P + np.array([S.config["base"]] * n)
    t.particles = P.copy()
    return t, P


def moments(S):
    """Mean, covariance and standard deviation are those of the weighted particles."""
    n = S.config["n"]
    t, P = particles(S, n)
    w = S.reals("w", n, 0, 4)
    S.assume(sum(w) >= 2**-4)
    if S.config.get("base"):
        # rounding matters where positions are large: all particles count, none coincide
        for i in range(n):
            S.assume(w[i] >= 0.75 + i)
            for a in range(2):
                S.assume(P[i, a] - P[i - 1, a] >= 0.3 if i else P[i, a] - S.config["base"][a] >= 0.1)
    t.weights = w.copy()
    W = sum(w)
    mean = [sum(w[i] * P[i, k] for i in range(n)) / W for k in range(6)]
    got = t.particle_mean
    S.check(tuple(got.shape) == (6,), "shape of mean")
    S.eq(got, S.array(mean), "mean")
    cov = t.particle_covariance
    S.check(tuple(cov.shape) == (6, 6), "shape of covariance")
    dims = S.config["dims"]
    for a, b in itertools.combinations_with_replacement(dims, 2):
        # the variance of pairwise differences, which needs no mean
        want = sum(w[i] * w[j] * (P[i, a] - P[j, a]) * (P[i, b] - P[j, b]) for i, j in itertools.combinations(range(n), 2))
        S.eq(cov[a, b] * W * W, want, "covariance")
        S.eq(cov[b, a] * W * W, want, "covariance")
    for kw in ({}, dict(mean=got)):
        sd = t.compute_particle_sigma(**kw)
        S.check(tuple(sd.shape) == (6,), "shape of deviation")
        for a in dims:
            S.check(sd[a] >= 0, "deviation")
            S.eq(sd[a] ** 2 * W * W, sum(w[i] * w[j] * (P[i, a] - P[j, a]) ** 2 for i, j in itertools.combinations(range(n), 2)), "deviation")
    S.eq(t.particles, P, "particles unchanged")
    S.eq(t.weights, w, "weights unchanged")
    S.reach()


def update(S):
    """Likelihoods multiply over observers with images and the motion model."""
    n = 2
    t, P = particles(S, n)
    imgs, motion = S.config["imgs"], S.config.get("motion")
    total = [0.0] * n
    used = 0
    for obs, img in enumerate(imgs):
        if img is not None and img >= 0:
            l = S.reals("l%d" % obs, n, 0, 8)
            t.given[obs, img] = l.copy()
            total = [a + b for a, b in zip(total, l)]
            used += 1
        elif img is not None:
            t.given[obs, img] = None  # skipped by the observer
    model = None
    if motion:
        class Model:
            def compute_log_likelihoods(self, p):
                S.eq(p, P, "particles given to the motion model")
                return m.copy() if motion == 1 else None

        m = S.reals("m", n, 0, 8)
        model = Model()
        if motion == 1:
            total = [a + b for a, b in zip(total, m)]
            used += 1
    t.initialize_weights()
    S.check(tuple(t.weights.shape) == (n,), "a weight for each particle")
    S.eq(t.weights[0], t.weights[1], "equal weights at first")
    if S.config.get("before"):
        t.weights = S.reals("w", n, 0, 1).copy()
    w = t.weights.copy()
    t.update_weights(imgs=imgs, motion_model=model)
    S.check(sorted(set(a for a in t.asked if a[1] is not None)) == [(k, v) for k, v in enumerate(imgs) if v is not None], "each observer at its image")
    if used:
        for v in t.weights:
            S.check(v > 0, "weights are positive")
        S.eq(t.weights[0] * S.exp(-total[1]), t.weights[1] * S.exp(-total[0]), "weights in proportion to likelihoods")
    else:
        S.eq(t.weights, w, "no observations, no change")
    S.eq(t.particles, P, "particles unchanged")
    S.reach()


def valid(S):
    """Particles on cells that are not visible, or missing, are refused."""
    patch_interpolation(S)
    bad = S.config["bad"]
    t, P = particles(S, 2)
    seen = S.bools("seen", 4)
    V = S.array([[S.ite(v, 1.0, 0.0) for v in seen[:2]], [S.ite(v, 1.0, 0.0) for v in seen[2:]]])
    t.viewshed = glimpse.Raster(V, x=(0, 4), y=(4, 0))
    ok = True
    Q = P.copy()
    for k in range(2):
        i, j = (S.concrete(S.int("row%d" % k, 0, 1)), S.concrete(S.int("col%d" % k, 0, 1))) if bad is None or k == bad[0] else (0, 1)
        u, v = S.real("u%d" % k, 2**-6, 2 - 2**-6), S.real("v%d" % k, 2**-6, 2 - 2**-6)
        Q[k, 0], Q[k, 1] = 2 * j + u, 4 - 2 * i - v
        ok = S.and_(ok, V[i, j] > 0)
    if bad:
        Q[tuple(bad)] = np.nan
    t.particles = Q
    if bad or not ok:
        S.raises(ValueError, t.test_particles, "refused")
    else:
        t.test_particles()
    t.viewshed = None
    if bad:
        S.raises(ValueError, t.test_particles, "missing refused")
    else:
        t.test_particles()
    S.reach()


HARNESSES = [
    H("moments", moments, [dict(n=2, dims=(0, 1, 5)), dict(n=3, dims=(2, 4)), dict(n=2, dims=(0, 1), base=(431250.7, 7100000.3, 500.1, 0, 0, 0))], thorough=[dict(n=4, dims=(0, 3)), dict(n=2, dims=(0, 1, 2, 3, 4, 5))], bounds="2-4 particles with any positions, velocities and weights"),
    H("update", update, [dict(imgs=i, motion=m) for i in ((0, 1), (None, 1), (2, -1), (None, None), (-1, None)) for m in (0, 1, 2)] + [dict(imgs=(None, -1), motion=2, before=True), dict(imgs=(1, 0), motion=1, before=True)],
      bounds="2 particles, 2 observers and a motion model with any log likelihoods"),
    H("valid", valid, [dict(bad=b) for b in (None, (0, 2), (1, 5))], bounds="2 particles in any cells of a 2x2 viewshed"),
]
