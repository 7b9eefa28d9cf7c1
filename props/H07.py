"""Datetime sequences and selection."""
import datetime

import numpy as np

from symx.runner import H

from glimpse import helpers as h

SEC = 10**6


def increasing(S, n, gap=(1, 10**9), tag="t"):
    """Strictly increasing datetimes at microsecond resolution."""
    t = [S.datetime(tag + "0", 0, 10**9)]
    for i in range(1, n):
        t.append(t[-1] + S.timedelta("%s_d%d" % (tag, i), gap[0], gap[1]))
    return t


def ranges(S):
    """Every multiple of the step from start that is not after stop, in order."""
    start = S.datetime("start", 0, 10**9)
    step = datetime.timedelta(microseconds=S.config["step"])
    span = S.timedelta("span", -2 * S.config["step"], 5 * S.config["step"])
    stop = start + span
    out = h.datetime_range(start, stop, step)
    n = len(out)
    for i in range(n):
        S.eq(S.us(out[i]), S.us(start) + i * S.us(step), "multiples of the step from start")
        S.check(S.us(out[i]) <= S.us(stop), "not after stop")
    S.check(S.us(start) + n * S.us(step) > S.us(stop), "none is missing")
    S.reach()


def window(S):
    """Without a snap, exactly the datetimes from start to end, both included."""
    n = 3
    t = increasing(S, n)
    start = S.datetime("start", 0, 4 * 10**9) if S.config["start"] else None
    end = S.datetime("end", 0, 4 * 10**9) if S.config["end"] else None
    a, b = (S.us(start) if start is not None else None), (S.us(end) if end is not None else None)
    try:
        out = h.select_datetimes(t, start=start, end=end)
    except ValueError:
        lo = a if a is not None else S.us(t[0])
        hi = b if b is not None else S.us(t[-1])
        S.check(lo > hi, "start after end is refused")
        S.reach("refused")
        return
    for i in range(n):
        want = []
        if a is not None:
            want.append(S.us(t[i]) >= a)
        if b is not None:
            want.append(S.us(t[i]) <= b)
        S.eq(out[i], S.and_(*want) if want else True, "within start and end")
    S.check(len(out) == n, "a flag for each datetime")
    S.reach()


def snapped(S):
    """Each target on the snap grid takes its nearest datetime, if near enough."""
    cfg = S.config
    n, k = cfg["n"], cfg["k"]
    step = datetime.timedelta(microseconds=cfg["snap"])
    # the first target is at an offset after the start
    off = S.timedelta("off", 0, cfg["snap"] - 1)
    turns = S.concrete(S.int("turns", -2, 2))
    start = S.datetime("start", 10**8, 10**9)
    origin = start + off + turns * step
    first = start + off
    # the last target and the end
    rest = S.timedelta("rest", 0, cfg["snap"] - 1)
    end = first + (k - 1) * step + rest
    t = [S.datetime("t0", 10**7, 2 * 10**9)]
    for i in range(1, n):
        t.append(t[-1] + S.timedelta("dt%d" % i, 1, 10**7))
    kw = {}
    if cfg["maxdt"]:
        maxdt = S.timedelta("maxdt", 0, 10**6)
        kw["maxdt"] = maxdt
    out = h.select_datetimes(t, start=start, end=end, snap=step, origin=origin, **kw)
    T = [S.us(x) for x in t]
    targets = [S.us(first) + j * S.us(step) for j in range(k)]
    for x in T:
        for g in targets:
            # a datetime midway between targets or at the limit is not decided
            if not cfg["maxdt"]:
                S.assume(S.abs(x - g) * 2 != S.us(step))
    want = [False] * n
    for g in targets:
        for i in range(n):
            near = S.and_(*[S.abs(T[i] - g) < S.abs(T[j] - g) for j in range(i)],
                          *[S.abs(T[i] - g) <= S.abs(T[j] - g) for j in range(i, n)])
            ok = S.abs(T[i] - g) <= S.us(maxdt) if cfg["maxdt"] else 2 * S.abs(T[i] - g) <= S.us(step)
            want[i] = S.or_(want[i], S.and_(near, ok))
    for i in range(n):
        S.eq(out[i], S.and_(want[i], T[i] >= S.us(start), T[i] <= S.us(end)), "nearest to a target")
    S.reach()


def unbounded(S):
    """Without limits, targets cover every datetime."""
    n = 2
    step = datetime.timedelta(microseconds=S.config["snap"])
    t = [S.datetime("t0", 10**5, 10**6), ]
    gap = S.timedelta("gap", 1, S.config["snap"])
    t.append(t[0] + gap)
    off = S.timedelta("off", 0, S.config["snap"] - 1)
    origin = t[0] + off
    out = h.select_datetimes(t, snap=step, origin=origin)
    T = [S.us(x) for x in t]
    want = [False] * n
    for j in range(-3, 4):
        g = T[0] + S.us(off) + j * S.us(step)
        # a tie at half the snap interval may go either way
        for i in range(n):
            S.assume(2 * S.abs(T[i] - g) != S.us(step))
        for i in range(n):
            o = 1 - i
            near = S.abs(T[i] - g) <= S.abs(T[o] - g) if i == 0 else S.abs(T[i] - g) < S.abs(T[o] - g)
            want[i] = S.or_(want[i], S.and_(near, 2 * S.abs(T[i] - g) <= S.us(step)))
    for i in range(n):
        S.eq(out[i], want[i], "nearest to a target")
    S.check(S.or_(want[0], want[1]), "something is selected")
    S.reach()


def distances(S):
    """Seconds between datetimes, wherever the computer is."""
    if S.config["dst"]:
        S.dst()
    x = [S.datetime("x%d" % i, 0, 300 * 86400 * SEC) for i in range(2)]
    y = [S.datetime("y%d" % i, 0, 300 * 86400 * SEC) for i in range(2)]
    from props.H02 import _cdist

    S.patch(h.scipy.spatial.distance, "cdist", _cdist(S))
    d = h.pairwise_distance_datetimes(x, y)
    S.check(d.shape == (2, 2), "shape")
    for i in range(2):
        for j in range(2):
            S.eq(d[i, j], S.abs(S.us(x[i]) - S.us(y[j])) / 1e6, "seconds apart", tol=1e-3)
    S.reach()


HARNESSES = [
    H("ranges", ranges, [dict(step=x) for x in (1, 7, 10**6, 1800 * 10**6)], bounds="steps of 1 us, 7 us, 1 s and 30 min; up to 6 datetimes"),
    H("window", window, [dict(start=a, end=b) for a in (False, True) for b in (False, True)], bounds="3 datetimes"),
    H("snapped", snapped, [dict(n=2, k=1, maxdt=False, snap=10**6), dict(n=2, k=2, maxdt=False, snap=1800 * 10**6), dict(n=2, k=2, maxdt=True, snap=1800 * 10**6), dict(n=3, k=1, maxdt=True, snap=1234), dict(n=1, k=2, maxdt=False, snap=10**6)],
      thorough=[dict(n=3, k=2, maxdt=False, snap=10**6), dict(n=3, k=3, maxdt=True, snap=10**6)], bounds="1-3 datetimes, 1-2 (thorough: 3) targets, fixed snap intervals"),
    H("unbounded", unbounded, [dict(snap=x) for x in (100, 10**6, 1800 * 10**6)], bounds="2 datetimes within a snap interval"),
    H("distances", distances, [dict(dst=d) for d in (False, True)], bounds="2 by 2 datetimes within 300 days; local time UTC or central European"),
]
