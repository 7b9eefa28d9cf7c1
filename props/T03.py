"""The schedule of tracking: which images are used, when, and from which state."""
import datetime
import itertools

import numpy as np

from symx.runner import H

import glimpse
from glimpse.track import tracker as module
from props.common import Draws, patch_random

ASSUMPTIONS = ["images, motion models and image likelihoods are stand-ins that record how they are used"]
# microseconds; times and distances of the second are exact in seconds
# far from zero, and not on a coarse lattice
FAR = 2.0**19 + 2.0**-7
UNITS = {False: 2**21, True: 500000}


class Middle(Draws):
    """Uniform draws in the middle."""

    def _uniform(self):
        return 0.5


class Image:
    def __init__(self, when):
        self.datetime = when
        self.reads = []

    def read(self, box=None, cache=True):
        self.reads.append((box, cache))
        return np.zeros((2, 2))


class Model:
    """A motion model that marks its particles with its track and the time evolved."""

    def __init__(self, S, events, k, unit, n=1, fails=None):
        self.S = S
        self.events, self.k, self.time_unit, self.n, self.fails = events, k, unit, n, fails
        self.steps = 0

    def initialize_particles(self):
        self.events.append(("start", self.k, None))
        p = np.zeros((self.n, 6))
        p[:, 0] = 100 * (self.k + 1)
        p[:, 2] = FAR + ((self.k + 1) * np.linspace(-1, 1, self.n) if self.n > 1 else 0)
        return self.S.array(p)

    def evolve_particles(self, particles, dt):
        self.steps += 1
        if self.fails == self.steps:
            raise RuntimeError("beyond the surface")
        self.events.append(("evolve", self.k, dt))
        particles[:, 1] += 1

    def compute_log_likelihoods(self, particles):
        return None


class Spy(glimpse.Tracker):
    events = None

    def state(self):
        return int(self.particles[0, 0]) // 100 - 1, int(self.particles[0, 1])

    def initialize_template(self, obs, img, tile_size):
        self.events.append(("template", self.state(), (obs, img, tile_size)))
        if self.templates is None:
            self.templates = [None] * len(self.observers)
        self.templates[obs] = {"owner": self.state()[0], "img": img}

    def compute_observer_log_likelihoods(self, obs, img):
        if img is None:
            return None
        self.events.append(("compare", self.state(), (obs, img, dict(self.templates[obs]))))
        return np.zeros(len(self.particles))


def observers(S, sizes, hi=9):
    """Observers with images at any increasing times."""
    obs, T = [], []
    for j, n in enumerate(sizes):
        ticks = [S.int("t%d_%d" % (j, i), 0, hi) for i in range(n)]
        for a, b in zip(ticks[:-1], ticks[1:]):
            S.assume(a < b)
        when = [S_date(S, v) for v in ticks]
        obs.append(glimpse.Observer([Image(w) for w in when], cache=j % 2 == 0))
        T.append(ticks)
    return obs, T


def tick(S):
    return S.config.get("tick", UNITS["masks" in S.config])


def S_date(S, ticks):
    if S.symbolic:
        from symx import times
        return times.SDate(ticks * tick(S))
    from symx.api import EPOCH
    return EPOCH + datetime.timedelta(microseconds=int(ticks) * tick(S))


def S_delta(S, ticks):
    if S.symbolic:
        from symx import times
        return times.SDelta(ticks * tick(S))
    return datetime.timedelta(microseconds=int(ticks) * tick(S))


def stubs(S):
    if S.symbolic:
        import glimpse.helpers as h
        from props.H02 import _cdist

        S.patch(h.scipy.spatial.distance, "cdist", _cdist(S))


def nearest(S, t, T, maxdt, img, label):
    """img is the nearest within maxdt, or None."""
    d = [S.abs(t - v) for v in T]
    if img is None:
        S.check(S.and_(*[v > maxdt for v in d]), label + ": none within reach")
    else:
        S.check(S.and_(d[img] <= maxdt, *[d[img] <= v for v in d]), label + ": nearest within reach")


def match(S):
    """Each observer's nearest image within reach of each datetime."""
    stubs(S)
    m = S.config.get("m", 2)
    obs, T = observers(S, S.config["sizes"])
    tracker = glimpse.Tracker(observers=obs)
    D = [S.int("d%d" % i, 0, 9) for i in range(m)]
    maxdt = S.int("maxdt", -3, 3) if S.config.get("negative") else S.int("maxdt", 0, 3)
    out = tracker.match_datetimes(S.objarray([S_date(S, d) for d in D]), maxdt=S_delta(S, maxdt))
    S.check(tuple(out.shape) == (m, len(obs)), "shape")
    for i, j in itertools.product(range(m), range(len(obs))):
        img = out[i, j]
        nearest(S, D[i], T[j], S.abs(maxdt), None if img is None else int(img), "image")
    S.reach()


def parse(S):
    """Datetimes to track: in order, without repeats, each with an image within reach."""
    stubs(S)
    obs, T = observers(S, S.config["sizes"], hi=6)
    tracker = glimpse.Tracker(observers=obs)
    n = S.config["n"]
    D = [S.int("d%d" % i, 0, 6) for i in range(n)]
    maxdt = S.int("maxdt", 0, 1)
    up = S.and_(*[a <= b for a, b in zip(D[:-1], D[1:])])
    down = S.and_(*[a >= b for a, b in zip(D[:-1], D[1:])])
    call = lambda: tracker.parse_datetimes([S_date(S, d) for d in D], maxdt=S_delta(S, maxdt))
    if not S.or_(up, down):
        S.raises(ValueError, call, "not in order")
        return S.reach()
    want = []
    for d in D:
        if want and bool(want[-1] == d):
            continue
        if S.or_(*[S.abs(d - v) <= maxdt for v in sum(T, [])]):
            want.append(d)
    if len(want) < 2:
        S.raises(ValueError, call, "too few")
        return S.reach()
    got = call()
    S.check(len(got) == len(want), "number of datetimes")
    for g, w in zip(got, want):
        S.eq(S.us(g), w * tick(S), "datetimes")
    S.reach()


def schedule(S):
    """From the first to the last image of the observers used, exactly once each, in order."""
    stubs(S)
    sizes = S.config["sizes"]
    obs, T = observers(S, sizes, hi=S.config.get("hi", 7))
    events = []
    tracker = Spy(observers=obs)
    tracker.events = events
    if S.config.get("n", 1) > 1:
        # weights are equal, so each particle is drawn once
        S.patch(module.np, "random", Middle(S))
    else:
        patch_random(S, module)
    masks = S.config["masks"]
    unit = datetime.timedelta(days=1)
    fails = S.config.get("fails", {})
    n = S.config.get("n", 1)
    models = [Model(S, events, k, unit, n=n, fails=fails.get(str(k), fails.get(k))) for k in range(len(masks))]
    kw = {}
    maxdt = 0
    if S.config.get("datetimes"):
        D = [S.int("d%d" % i, 0, 7) for i in range(S.config["datetimes"])]
        for a, b in zip(D[:-1], D[1:]):
            S.assume(a > b if S.config.get("backward") else a < b)
        maxdt = S.config.get("maxdt", 0)
        for d in D:
            S.assume(S.or_(*[S.abs(d - v) <= maxdt for v in sum(T, [])]))
        kw = dict(datetimes=[S_date(S, d) for d in D], maxdt=datetime.timedelta(microseconds=maxdt * tick(S)))
    size = (3, 5)
    if S.config.get("default"):
        size = (15, 15)
    else:
        kw["tile_size"] = size
    if not all(all(m) for m in masks):
        kw["observer_mask"] = np.array(masks, dtype=bool)
    if S.config.get("covariances"):
        kw["return_covariances"] = True
    if S.config.get("particles"):
        kw["return_particles"] = True
    if S.config.get("twice"):
        tracker.track(models[::-1], **kw)
        del events[:]
    out = tracker.track(models, **kw)
    if not S.config.get("datetimes"):
        # every time of any observer, once
        every = sum(T, [])
        D = [S.us(d) / tick(S) for d in out.datetimes]
        for a, b in zip(D[:-1], D[1:]):
            S.check(a < b, "datetimes in order")
        for d in D:
            S.check(S.or_(*[d == v for v in every]), "datetimes of images")
        for v in every:
            S.check(S.or_(*[d == v for d in D]), "all datetimes of images")
    else:
        S.check(len(out.datetimes) == len(D), "number of datetimes")
        for d, o in zip(D, out.datetimes):
            S.eq(S.us(o), d * tick(S), "datetimes")
    M = out.images
    S.check(tuple(M.shape) == (len(D), len(obs)), "shape of images")
    M = [[None if v is None else int(v) for v in row] for row in M]
    for i, j in itertools.product(range(len(D)), range(len(obs))):
        nearest(S, D[i], T[j], maxdt, M[i][j], "image")
    for j, o in enumerate(obs):
        for h, image in enumerate(o.images):
            cached = len(masks) > 1 and o.cache and any(row[j] == h for row in M)
            S.check(((None, True) in image.reads) == cached, "images cached for several tracks")
    S.check(tuple(out.means.shape) == (len(masks), len(D), 6), "shape of means")
    for k, mask in enumerate(masks):
        mine = [e for e in events if (e[1][0] if isinstance(e[1], tuple) else e[1]) == k]
        used = [i for i in range(len(D)) if any(M[i][j] is not None and mask[j] for j in range(len(obs)))]
        if not used:
            S.check(not mine and bool(np.isnan(np.asarray(out.means[k], dtype=float)).all()), "no track without images")
            continue
        first, last = used[0], used[-1]
        stop = fails.get(str(k), fails.get(k))
        end = last if stop is None else first + stop - 1
        S.check([e[0] for e in mine].count("start") == 1 and mine[0][0] == "start", "started once")
        steps = [e[2] for e in mine if e[0] == "evolve"]
        S.check(len(steps) == end - first, "one step between datetimes")
        for i, dt in zip(range(first + 1, end + 1), steps):
            S.eq(S.us(dt), (D[i] - D[i - 1]) * tick(S), "length of step")
        # images compared, each after the template of its observer
        for i in range(first, end + 1):
            at = [e for e in mine if isinstance(e[1], tuple) and e[1][1] == i - first]
            compared = [(e[2][0], int(e[2][1])) for e in at if e[0] == "compare"]
            want = [(j, M[i][j]) for j in range(len(obs)) if mask[j] and M[i][j] is not None]
            S.check(compared == (want if i > first else []), "images compared")
            S.check(all(e[2][1] is not None for e in at), "templates have images")
            templates = [(e[2][0], int(e[2][1])) for e in at if e[0] == "template"]
            new = [(j, M[i][j]) for j, img in want if not any(M[h][j] is not None for h in range(i))]
            S.check(templates == new, "templates from the first image of each observer")
            S.check(all(tuple(e[2][2]) == size for e in at if e[0] == "template"), "size of templates")
        for e in mine:
            if e[0] == "compare":
                S.check(e[2][2]["owner"] == k, "templates of its own track")
        good = ~np.isnan(np.asarray(out.means[k], dtype=float)).any(axis=1)
        S.check(list(good) == [first <= i <= end for i in range(len(D))], "means from first to last image")
        for i in range(first, end + 1):
            S.eq(out.means[k, i], np.array([100.0 * (k + 1), i - first, FAR, 0, 0, 0]), "means of particles")
        spread = 0.0 if n == 1 else k + 1.0
        inside = [first <= i <= end for i in range(len(D))]
        if S.config.get("covariances"):
            S.check(tuple(out.covariances.shape) == (len(masks), len(D), 6, 6) and out.sigmas is None, "covariances")
            got = [[[out.covariances[k, i, a, b] for b in range(6)] for a in range(6)] for i in range(len(D))]
            want = [[[spread**2 if a == b == 2 else 0.0 for b in range(6)] for a in range(6)] for i in range(len(D))]
        else:
            S.check(tuple(out.sigmas.shape) == (len(masks), len(D), 6) and out.covariances is None, "sigmas")
            got = [[out.sigmas[k, i, a] for a in range(6)] for i in range(len(D))]
            want = [[spread if a == 2 else 0.0 for a in range(6)] for i in range(len(D))]
        for g, w, i in zip(got, want, inside):
            if i:
                S.eq(S.array(g), S.array(w), "spread of particles")
            else:
                S.check(bool(np.isnan(np.asarray(g, dtype=float)).all()), "no spread before the first or after the last image")
        if S.config.get("particles"):
            S.check(tuple(out.particles.shape) == (len(masks), len(D), n, 6), "particles")
            S.check(tuple(out.weights.shape) == (len(masks), len(D), n), "weights")
            for i in range(len(D)):
                p, w = np.asarray(out.particles[k, i], dtype=float), np.asarray(out.weights[k, i], dtype=float)
                if inside[i]:
                    S.check(bool(np.all(p[:, 0] == 100 * (k + 1)) and np.all(p[:, 1] == i - first)), "particles of each track and time")
                    S.check(bool(np.allclose(np.sort(p[:, 2]) - FAR, spread * np.linspace(-1, 1, n))), "particles of each track and time")
                    S.check(bool(np.all(w > 0) and np.allclose(w, w[0])), "weights of particles")
                else:
                    S.check(bool(np.isnan(p).all() and np.isnan(w).all()), "no particles before the first or after the last image")
        else:
            S.check(out.particles is None and out.weights is None, "no particles")
        if len(masks) > 1:
            S.check(bool(out.success[k]) == (stop is None), "success")
    S.reach()


def units(S):
    """Tracks are made in one unit of time."""
    stubs(S)
    obs, T = observers(S, (2,), hi=3)
    tracker = Spy(observers=obs)
    tracker.events = []
    patch_random(S, module)
    n = S.config["n"]
    days = [S.concrete(S.int("unit%d" % k, 1, 2)) for k in range(n)]
    models = [Model(S, tracker.events, k, datetime.timedelta(days=u)) for k, u in enumerate(days)]
    if len(set(days)) > 1:
        S.raises(ValueError, lambda: tracker.track(models, tile_size=(3, 5)), "different time units")
    else:
        out = tracker.track(models, tile_size=(3, 5))
        S.check(out.time_unit == datetime.timedelta(days=days[0]), "time unit of tracks")
        S.check(len(out.means) == n, "number of tracks")
        S.check(out.tracker is tracker, "tracker of tracks")
    S.reach()


HARNESSES = [
    H("units", units, [dict(n=1), dict(n=2), dict(n=3)], bounds="1-3 tracks in any of 2 units of time"),
    H("match", match, [dict(sizes=(2, 3), m=1), dict(sizes=(2, 2)), dict(sizes=(2,), negative=True)], thorough=[dict(sizes=(2, 3))], bounds="2 observers with 2-3 images at any times, 2 datetimes, any reach"),
    H("parse", parse, [dict(sizes=(2,), n=3), dict(sizes=(2, 2), n=2)], thorough=[dict(sizes=(2, 2), n=3)], bounds="2-3 datetimes in any order, up to 2 observers, any reach"),
    H("schedule", schedule, [
        dict(sizes=(2, 2), masks=[(1, 1)]),
        dict(sizes=(2, 2), masks=[(1, 0), (0, 1)], default=True),
        dict(sizes=(2, 2), masks=[(1, 1), (1, 1)], covariances=True, n=2),
        dict(sizes=(3,), masks=[(1,), (1,), (1,)], fails={"1": 1}, particles=True, n=2),
        dict(sizes=(2,), masks=[(1,), (1,)], fails={"0": 1}),
        dict(sizes=(2,), masks=[(1,), (1,)], particles=True, covariances=True, n=2),
        dict(sizes=(2, 2), masks=[(1, 1)], datetimes=3, hi=4, n=2),
        dict(sizes=(2, 2), masks=[(1, 1), (1, 0)], twice=True, hi=3),
        dict(sizes=(2, 2), masks=[(1, 1), (0, 1)], datetimes=3, backward=True, hi=5),
        dict(sizes=(2, 2), masks=[(1, 1)], datetimes=3, maxdt=1, hi=3),        dict(sizes=(2,), masks=[(0,), (1,)]),
    ], thorough=[dict(sizes=(3, 2), masks=[(1, 1)], datetimes=3, hi=5), dict(sizes=(2, 2, 2), masks=[(1, 0, 1), (0, 1, 1)], hi=4), dict(sizes=(3, 2), masks=[(1, 1)], datetimes=3, maxdt=1, backward=True, hi=5)], bounds="up to 2 observers with 2-3 images at any times, up to 3 tracks, datetimes forward or backward"),
]
