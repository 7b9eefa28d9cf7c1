"""Parallel processing: results do not depend on it."""
import copy
import datetime
import itertools
import os

import numpy as np

from symx.runner import H

import glimpse
from glimpse import Raster, optimize
from glimpse.optimize import Matches, RotationMatchesXY, RotationMatchesXYZ
from glimpse.track import tracker as module
from props import C05, O07, T03
from props.common import patch_random
from props.workers import workers

ASSUMPTIONS = [
    "processes are modeled as workers with copies of all state at the start of the pool, returning copies of results (as pickles); threads as tasks which share state and are interrupted between lines of the package, at most twice",
    "pools return results in order of the tasks and reduce them one at a time as they arrive in any order, as sharedmem documents",
]


class Files(O07.Files):
    """Objects in files are copies."""

    def write(self, obj, path, *a, **k):
        super().write(copy.deepcopy(obj), path)

    def read(self, path, *a, **k):
        return copy.deepcopy(super().read(path))


def scratch(fn):
    def run(S):
        f = Files(S)
        S.patch(optimize, "print", lambda *a, **k: None)
        try:
            fn(S, f)
        finally:
            O07.shutil.rmtree(f.root)

    run.__name__ = fn.__name__
    return run


def same_matches(S, a, b, images, label):
    S.check(tuple(a.shape) == tuple(b.shape), label + ": shape")
    S.check([(int(i), int(j)) for i, j in zip(a.row, a.col)] == [(int(i), int(j)) for i, j in zip(b.row, b.col)], label + ": pairs")
    for x, y, i, j in zip(a.data, b.data, b.row, b.col):
        S.check(type(x) is type(y), label + ": type")
        S.check(x.cams[0] is images[int(i)].cam and x.cams[1] is images[int(j)].cam, label + ": cameras of the images")
        for n in ("uvs", "xys"):
            p, q = getattr(x, n, None), getattr(y, n, None)
            S.check((p is None) == (q is None), label + ": " + n)
            if q is not None:
                for c in range(2):
                    S.check(len(p[c]) == len(q[c]), label + ": number of points")
                    S.eq(p[c], q[c], label + ": points")
        S.check((x.weights is None) == (y.weights is None), label + ": weights")
        if y.weights is not None:
            S.eq(x.weights, y.weights, label + ": weights")


@scratch
def keypoints(S, files):
    """Keypoints in memory and files."""
    log = workers(S, S.config["kind"])
    n = S.config["n"]
    read = [S.concrete(S.bool("read%d" % i)) for i in range(n)]
    written = [S.concrete(S.bool("written%d" % i)) for i in range(n)] if S.config.get("written") else [False] * n
    kw = {k: True for k in S.config.get("options", [])}
    S.patch(optimize, "detect_keypoints", lambda array, mask=None, **k: "k%d mask %s" % (array[0, 0], mask[0, 0] if mask is not None else None))
    masks = [np.full((2, 2), i, dtype=np.uint8) for i in range(n)]
    got = []
    for parallel in (0, S.config["np"]):
        images, m = O07.sequence(S, range(n))
        for name in list(files.held):
            os.remove(name)
        files.held.clear()
        for i in range(n):
            if written[i]:
                files.put("i%d.pkl" % i, "file %d" % i)
        if any(read):
            m.keypoints = ["memory %d" % i if r else None for i, r in enumerate(read)]
        if S.config.get("path"):
            kw["path"] = files.root
        m.build_keypoints(masks=masks, parallel=parallel, **kw)
        got.append((list(m.keypoints), {os.path.basename(p): v for p, v in files.held.items()}))
        S.check(all(a is b for a, b in zip(m.images, images)) and len(m.images) == n, "images")
    S.check(got[0][0] == got[1][0], "keypoints")
    S.check(got[0][1] == got[1][1], "files of keypoints")
    S.check(log == [(0, n), (S.config["np"], n)], "tasks in parallel as asked")
    S.reach()


@scratch
def matches(S, files):
    """Matches, their cameras and files, and the keypoints left."""
    log = workers(S, S.config["kind"])
    n = S.config["n"]
    every = list(itertools.combinations(range(n), 2))
    data = {(i, j): [S.reals("a%d%d" % (i, j), (1, 2), 0, 6), S.reals("b%d%d" % (i, j), (1, 2), 0, 6), S.reals("r%d%d" % (i, j), (1,), 0.25, 0.75)] for i, j in every}
    weights = bool(S.config.get("weights"))

    def match(a, b, return_ratios=False, **k):
        d = data[int(a[1:]), int(b[1:])]
        return tuple(x.copy() for x in (d if return_ratios else d[:2]))

    S.patch(optimize, "match_keypoints", match)
    written = S.config.get("written") and S.concrete(S.bool("written"))
    kw = dict(weights=weights, clear_matches=bool(S.config.get("clear_matches")), clear_keypoints=not S.config.get("keep"))
    if S.config.get("mtype"):
        kw["mtype"] = dict(XY=RotationMatchesXY, XYZ=RotationMatchesXYZ)[S.config["mtype"]]
    if S.config.get("filter"):
        kw["filter"] = dict(max_distance=S.real("max_distance", 1, 3))
    if S.config.get("seq"):
        kw["seq"] = S.config["seq"]
    old = S.reals("old", (1, 2), 0, 6)
    got = []
    for parallel in (0, S.config["np"]):
        images, m = O07.sequence(S, range(n))
        O07.detect(S, m)
        for name in list(files.held):
            os.remove(name)
        files.held.clear()
        if written:
            cams = [glimpse.Camera(imgsz=(8, 6), f=(2.0, 2.5)) for i in range(2)]
            files.put("i0-i1.pkl", Matches(cams, (old.copy(), old + 1), weights=S.array([2.0]) if weights else None))
        if S.config.get("path"):
            kw["path"] = files.root
        if S.config.get("files"):
            kw["keypoints_path"] = files.root
            for i in range(n):
                files.put("i%d.pkl" % i, "k%d" % i)
            m.keypoints = ["k0"] + [None] * (n - 1)
        m.build_matches(parallel=parallel, **kw)
        got.append((m.matches, images, list(m.keypoints), dict(files.held)))
    (a, ia, ka, fa), (b, ib, kb, fb) = got
    S.check((a is None) == (b is None), "matches kept")
    if a is not None:
        same_matches(S, a, a, ia, "matches in series")
        same_matches(S, b, a, ib, "matches")
    if not S.config.get("keep"):
        S.check(all(k is None for k in ka), "keypoints cleared in series")
        S.check(all(k is None for k in kb), "keypoints cleared")
    elif not S.config.get("files"):
        S.check(ka == kb, "keypoints kept")
    S.check(set(fa) == set(fb), "files of matches")
    for p in fa:
        if isinstance(fa[p], Matches):
            for c in range(2):
                S.eq(fa[p].uvs[c], fb[p].uvs[c], "points in files")
    S.reach()


@scratch
def changed(S, files):
    """Matches converted and filtered."""
    log = workers(S, S.config["kind"])
    n = S.config["n"]
    every = list(itertools.combinations(range(n), 2))
    data = {p: (S.reals("a%d%d" % p, (1, 2), 1, 5), S.reals("b%d%d" % p, (1, 2), 1, 5)) for p in every}
    lim = S.real("max_distance", 0.5, 4)
    clear = S.concrete(S.bool("clear"))
    got = []
    for parallel in (0, S.config["np"]):
        images, m = O07.sequence(S, range(n))
        O07.detect(S, m)
        O07.build(S, m, {p: (x.copy(), y.copy()) for p, (x, y) in data.items()})
        for name in S.config["do"]:
            if name == "convert":
                m.convert_matches(RotationMatchesXY, clear_uvs=clear, parallel=parallel)
            elif name == "weights":
                for k, x in enumerate(m.matches.data):
                    x.weights = S.array([k + 1.0])
                m.filter_matches(clear_weights=clear, min_weight=2, parallel=parallel)
            else:
                m.filter_matches(max_distance=lim, parallel=parallel)
        got.append((m.matches, images))
    (a, ia), (b, ib) = got
    same_matches(S, a, a, ia, "in series")
    same_matches(S, b, a, ib, "in parallel")
    S.reach()


def simulated(S):
    """Images simulated from tiles of elevations."""
    C05.quiet(S)
    log = workers(S, S.config["kind"], only="camera")
    ny, nx = S.config["shape"]
    W, Hh = S.config["imgsz"]
    cam = glimpse.Camera(imgsz=(W, Hh), f=2.0, xyz=(0.25, 0.5, 10), viewdir=(0, -90, 0))
    d = S.config.get("d", 3.0)
    lim = (-nx * d / 2, nx * d / 2), (ny * d / 2, -ny * d / 2)
    Z = S.array((np.arange(ny * nx).reshape(ny, nx) % 3 * 0.5).tolist())
    V = S.reals("v", (ny, nx), -9, 9)
    if "masked" in S.config:
        for k in S.config["masked"]:
            Z[tuple(k)] = np.nan
    kw = dict(values=V, return_depth=True, tile_size=S.config["tile"], tile_overlap=S.config.get("overlap", (0, 0)))
    got = [cam.project_dem(Raster(Z.copy(), x=lim[0], y=lim[1]), parallel=parallel, **kw) for parallel in (0, S.config["np"])]
    S.check(len(log) == 2 and log[1][0] == S.config["np"], "in parallel")
    for k in np.ndindex(Hh, W, 2):
        a, b = got[0][k], got[1][k]
        S.check(bool(S.isnan(a)) == bool(S.isnan(b)), "pixels with cells")
        if not S.isnan(a):
            S.eq(b, a, "pixels")
    S.reach()


class Model(T03.Model):
    """Particles anywhere, moving at a rate of their own."""

    def __init__(self, S, where, k, unit, n, fails=None):
        super().__init__(S, [], k, unit, n=n, fails=fails)
        self.where = where

    def initialize_particles(self):
        p = super().initialize_particles()
        p[:, 3] = self.where
        return p


def tracks(S):
    """Tracks of several models."""
    T03.stubs(S)
    sizes, masks, n = S.config["sizes"], S.config["masks"], S.config.get("n", 1)
    S.patch(module.np, "random", T03.Middle(S))
    log = workers(S, S.config["kind"], switches=S.config.get("switches", 1), only="track")
    hi = S.config.get("hi", 3)
    T = []
    for j, size in enumerate(sizes):
        ticks = S.config["times"][j] if "times" in S.config else [S.int("t%d_%d" % (j, i), 0, hi) for i in range(size)]
        for a, b in zip(ticks[:-1], ticks[1:]):
            S.assume(a < b)
        T.append(ticks)
    unit = datetime.timedelta(days=1)
    fails = S.config.get("fails", {})
    where = [S.real("x%d" % k, -9, 9) for k in range(len(masks))]
    kw = {}
    for name in ("covariances", "particles"):
        if S.config.get(name):
            kw["return_" + name] = True
    if S.config.get("reduced"):
        kw["reduce_particles"] = lambda particles, weights: [particles[-1, 0, 0], weights[-1, 0]]
    got = []
    for parallel in (0, S.config["np"]):
        obs = [glimpse.Observer([T03.Image(T03.S_date(S, v)) for v in ticks], cache=True) for ticks in T]
        tracker = T03.Spy(observers=obs)
        tracker.events = []
        models = [Model(S, where[k], k, unit, n, fails=fails.get(str(k))) for k in range(len(masks))]
        got.append(tracker.track(models, tile_size=(3, 5), observer_mask=np.array(masks, dtype=bool), parallel=parallel, **kw))
    a, b = got
    S.check(log == [(0, len(masks)), (S.config["np"], len(masks))], "tracks in parallel as asked")
    S.check(a.tracker is not None and b.tracker is tracker, "tracker of tracks")
    for name in ("means", "sigmas", "covariances", "particles", "weights"):
        x, y = getattr(a, name), getattr(b, name)
        S.check((x is None) == (y is None), name + " kept")
        if x is None:
            continue
        S.check(tuple(x.shape) == tuple(y.shape), "shape of " + name)
        x, y = list(np.array(x.tolist(), dtype=object).flat), list(np.array(y.tolist(), dtype=object).flat)
        gone = [bool(S.isnan(p)) for p in x]
        S.check(gone == [bool(S.isnan(p)) for p in y], "times of " + name)
        x, y = [[p for p, g in zip(v, gone) if not g] for v in (x, y)]
        S.eq(S.array(y), S.array(x), name)
    S.check([bool(v) for v in a.success] == [bool(v) for v in b.success], "success of tracks")
    S.check(list(a.success) == [str(k) not in fails for k in range(len(masks))], "success of tracks in series")
    if S.config.get("reduced"):
        S.check(len(a.reduced) == len(b.reduced), "reduced particles")
        for x, y in zip(a.reduced, b.reduced):
            S.check([bool(S.isnan(v)) for v in x] == [bool(S.isnan(v)) for v in y], "reduced particles")
            if not S.isnan(x[0]):
                S.eq(y, x, "reduced particles")
    S.reach()


P, TH = dict(kind="processes", np=2), dict(kind="threads", np=2)
HARNESSES = [
    H("keypoints", keypoints, [dict(P, n=3), dict(P, n=2, written=True, path=True), dict(P, n=2, written=True, path=True, options=["clear_keypoints"]), dict(P, n=2, path=True, options=["overwrite"]), dict(TH, n=2, path=True)],
      thorough=[dict(P, n=3, written=True, path=True), dict(TH, n=3, path=True)], bounds="2-3 images in any state of memory and file, 2 processes or threads"),
    H("matches", matches, [dict(P, n=3), dict(P, n=3, keep=True, weights=True, mtype="XY"), dict(P, n=3, path=True, written=True, mtype="XYZ"), dict(P, n=3, path=True, clear_matches=True), dict(P, n=3, seq=[1], filter=True),
                           dict(P, n=3, files=True), dict(P, n=2, files=True, keep=True), dict(TH, n=3, seq=[1])],
      thorough=[dict(P, n=4, np=3), dict(TH, n=3, path=True), dict(TH, n=3, keep=True, files=True)], bounds="2-3 images, 2 processes or threads"),
    H("changed", changed, [dict(P, n=3, do=["convert"]), dict(P, n=2, do=["filter"]), dict(P, n=3, do=["weights"]), dict(P, n=2, do=["filter", "convert"]), dict(TH, n=2, do=["filter"])],
      thorough=[dict(P, n=3, do=["filter", "convert"]), dict(TH, n=3, do=["convert"])], bounds="2-3 images, 2 processes or threads"),
    H("simulated", simulated, [dict(P, shape=(2, 3), imgsz=(3, 3), tile=(1, 2)), dict(P, shape=(3, 2), imgsz=(2, 2), tile=(2, 1), overlap=(1, 1), d=2.0, masked=[(0, 1)]), dict(TH, shape=(1, 2), imgsz=(2, 2), tile=(1, 1), d=2.0)],
      thorough=[dict(P, shape=(3, 3), imgsz=(3, 3), tile=(1, 2), np=3)], bounds="2x3 elevations in 2-6 tiles, 2 processes or threads"),
    H("tracks", tracks, [
        dict(P, sizes=(2, 2), masks=[(1, 1), (1, 0)], times=[(0, 2), (1, 2)], n=2),
        dict(P, sizes=(2,), masks=[(1,), (1,), (1,)], fails={"1": 1}, covariances=True, particles=True, n=2),
        dict(P, sizes=(2, 2), masks=[(1, 1), (0, 1)], reduced=True),
        dict(TH, sizes=(2,), masks=[(1,), (1,)], times=[(0, 1)], particles=True, n=2),
        dict(TH, sizes=(2, 2), masks=[(1, 1), (0, 1)], times=[(0, 2), (1, 2)]),
    ], thorough=[dict(TH, sizes=(3,), masks=[(1,), (1,)], times=[(0, 1, 2)], particles=True, n=2), dict(TH, sizes=(2,), masks=[(1,), (1,)], times=[(0, 1)], switches=2), dict(P, sizes=(2, 2), masks=[(1, 1), (0, 1), (1, 0)])], budget_s=200, bounds="2-3 tracks of 1-2 observers, 2 processes or threads, interrupted at any line"),
]
