"""Tracks: positions, velocities, uncertainties, endpoints."""
import datetime
import itertools

import numpy as np

from symx.runner import H

import glimpse
from glimpse import Tracks

ASSUMPTIONS = ["missing values are those of the pattern chosen (every pattern is explored)"]


def times(m):
    return [datetime.datetime(2020, 1, 1 + i) for i in range(m)]


def values(S):
    """Positions, velocities and uncertainties of each track and time."""
    n, m = S.config["shape"]
    M = S.reals("m", (n, m, 6), -100, 100)
    as_list = S.config.get("lists")
    sig = S.reals("s", (n, m, 6), 0, 10)
    # covariances of which sig are the standard deviations
    cov = S.array(np.zeros((n, m, 6, 6)).tolist())
    for i, j, k, l in itertools.product(range(n), range(m), range(6), range(6)):
        cov[i, j, k, l] = sig[i, j, k] * sig[i, j, k] if k == l else (k - l) * 0.125
    kind = S.config["sigma"]
    kw = dict(sigmas=sig, covariances=cov)
    if kind == "covariances":
        kw.pop("sigmas")
    if kind == "sigmas":
        kw.pop("covariances")
    if kind is None:
        kw = {}
    if as_list:
        M0 = [M[i] for i in range(n)]
        kw = {k: [v[i] for i in range(n)] for k, v in kw.items()}
    else:
        M0 = M
    # particles and weights, as lists of tracks
    P, W = S.reals("p", (n, m, 2, 6), -100, 100), S.reals("w", (n, m, 2), 0, 1)
    if S.config.get("particles"):
        kw.update(particles=[P[i] for i in range(n)] if as_list else P, weights=[W[i] for i in range(n)] if as_list else W)
    t = Tracks(datetimes=times(m), time_unit=datetime.timedelta(days=1), means=M0, **kw)
    S.eq(t.means, M, "means")
    for k, v in dict(sigmas=sig, covariances=cov, particles=P, weights=W).items():
        if k in kw:
            S.check(isinstance(getattr(t, k), np.ndarray), "array")
            S.eq(getattr(t, k), v, k)
        else:
            S.check(getattr(t, k) is None, "none given")
    S.eq(t.xyz, M[:, :, 0:3], "positions")
    S.eq(t.vxyz, M[:, :, 3:6], "velocities")
    if kind is None:
        S.check(t.xyz_sigma is None and t.vxyz_sigma is None, "no uncertainty")
    else:
        S.eq(t.xyz_sigma, sig[:, :, 0:3], "uncertainty of positions")
        S.eq(t.vxyz_sigma, sig[:, :, 3:6], "uncertainty of velocities")
    S.reach()


def endpoints(S):
    """First and last valid time of each track, for those with any."""
    n, m = S.config["shape"]
    M = np.arange(n * m * 6, dtype=float).reshape(n, m, 6)
    for i, j in itertools.product(range(n), range(m)):
        if not S.concrete(S.bool("valid%d_%d" % (i, j))):
            M[i, j] = np.nan
    t = Tracks(datetimes=times(m), time_unit=datetime.timedelta(days=1), means=M)
    sel = S.config.get("tracks")
    index = np.arange(n) if sel is None else np.arange(n)[sel]
    valid, first, last = t.endpoints() if sel is None else t.endpoints(tracks=sel)
    ok = ~np.isnan(M[index, :, 0])
    want = [(int(r.argmax()), int(len(r) - 1 - r[::-1].argmax())) for r in ok if r.any()]
    S.check(list(valid) == [bool(r.any()) for r in ok], "tracks with valid times")
    S.check([(int(a), int(b)) for a, b in zip(first, last)] == want and len(first) == len(last) == len(want), "first and last")
    S.reach()


def success(S):
    """Success of each track by its values and errors."""
    n = S.config["n"]
    errors = [ValueError("x") if S.concrete(S.bool("e%d" % i)) else None for i in range(n)]
    t = Tracks(datetimes=times(1), time_unit=datetime.timedelta(days=1), means=np.zeros((n, 1, 6)), errors=errors)
    S.check(list(t.success) == [e is None for e in errors], "success without errors")
    t = Tracks(datetimes=times(1), time_unit=datetime.timedelta(days=1), means=np.zeros((n, 1, 6)))
    S.check(t.success is None, "unknown")
    S.reach()


HARNESSES = [
    H("values", values, [dict(shape=(2, 1), sigma="covariances"), dict(shape=(1, 2), sigma="sigmas", lists=True, particles=True), dict(shape=(2, 2), sigma="both", particles=True), dict(shape=(1, 1), sigma=None), dict(shape=(3, 2), sigma="covariances", lists=True)], bounds="1-3 tracks, 1-2 times, any values"),
    H("endpoints", endpoints, [dict(shape=(1, 4)), dict(shape=(2, 3)), dict(shape=(3, 2), tracks=slice(1, None)), dict(shape=(3, 2), tracks=[2, 0])], bounds="1-3 tracks, 2-4 times, any missing"),
    H("success", success, [dict(n=1), dict(n=3)], bounds="1-3 tracks"),
]
