"""Keypoints and matches of sequences of images."""
import datetime
import itertools
import os
import shutil
import tempfile

import numpy as np

from symx.runner import H

import glimpse
from glimpse import helpers, optimize
from glimpse.optimize import KeypointMatcher, Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ
from props.T03 import S_date, S_delta, stubs

ASSUMPTIONS = ["cv2 detects any keypoints, match_keypoints is as O05 decides", "files hold what was written (pickles are replaced by objects in memory)"]


class Image:
    def __init__(self, path, when, cam, array):
        self.path, self.datetime, self.cam, self.array, self.pixels = path, when, cam, None, array

    def read(self, *a, **k):
        self.array = self.pixels
        return self.pixels


class Files:
    """A scratch folder, whose files hold objects."""

    def __init__(self, S):
        self.root, self.held, self.wrote, self.reads = tempfile.mkdtemp(prefix="glimpse-o07-"), {}, [], []
        S.patch(optimize.helpers, "write_pickle", self.write)
        S.patch(optimize.helpers, "read_pickle", self.read)

    def write(self, obj, path, *a, **k):
        path = os.path.abspath(str(path))
        assert path.startswith(self.root)
        open(path, "w").close()
        self.held[path] = obj
        self.wrote.append(os.path.basename(path))

    def put(self, name, obj):
        self.write(obj, os.path.join(self.root, name))
        self.wrote.pop()

    def read(self, path, *a, **k):
        path = os.path.abspath(str(path))
        if path not in self.held:
            raise FileNotFoundError(path)
        self.reads.append(os.path.basename(path))
        return self.held[path]

    def get(self, name):
        return self.held.get(os.path.join(self.root, name))


def scratch(fn):
    def run(S):
        f = Files(S)
        # printed progress
        S.patch(optimize, "print", lambda *a, **k: None)
        try:
            fn(S, f)
        finally:
            shutil.rmtree(f.root)

    run.__name__ = fn.__name__
    return run


def sequence(S, ticks, **k):
    cams = [glimpse.Camera(imgsz=(8, 6), f=(2.0, 2.5)) for t in ticks]
    images = [Image("folder/i%d.jpg" % i, S_date(S, t), cam, np.full((2, 2), i, dtype=np.uint8)) for i, (t, cam) in enumerate(zip(ticks, cams))]
    return images, KeypointMatcher(images, **k)


def times(S, n):
    ticks = [S.int("t%d" % i, 0, 9) for i in range(n)]
    for a, b in zip(ticks[:-1], ticks[1:]):
        S.assume(a <= b)
    return ticks


def detect(S, m, masks=None):
    S.patch(optimize, "detect_keypoints", lambda array, mask=None, **k: "k%d" % array[0, 0])
    m.build_keypoints(masks=masks)


@scratch
def pairs(S, files):
    """Every pair of images asked for is matched, and no other."""
    n = S.config["n"]
    ticks = times(S, n)
    images, m = sequence(S, ticks)
    detect(S, m)
    asked = []

    def match(a, b, **k):
        asked.append((a, b))
        return np.array([[1.0, 2.0]]), np.array([[2.0, 1.0]])

    S.patch(optimize, "match_keypoints", match)
    kw = {}
    reach, seq, imgs = None, S.config.get("seq"), S.config.get("imgs")
    if S.config.get("maxdt"):
        reach = S.int("maxdt", -1, 9)
        kw["maxdt"] = S_delta(S, reach)
    if seq is not None:
        kw["seq"] = seq
    if imgs is not None:
        kw["imgs"] = imgs
    m.build_matches(**kw)
    want = []
    for i, j in itertools.combinations(range(n), 2):
        ok = reach is None and seq is None
        if seq is not None and j - i in seq:
            ok = True
        if not ok and reach is not None:
            ok = bool(ticks[j] - ticks[i] <= reach)
        if ok and (imgs is None or i in imgs or j in imgs):
            want.append((i, j))
    got = list(zip([int(i) for i in m.matches.row], [int(j) for j in m.matches.col]))
    S.check(sorted(got) == want, "pairs matched")
    S.check(tuple(m.matches.shape) == (n, n), "one row and column for each image")
    S.check(sorted(asked) == [("k%d" % i, "k%d" % j) for i, j in want], "keypoints matched")
    for (i, j), x in zip(got, m.matches.data):
        S.check(x.cams[0] is images[i].cam and x.cams[1] is images[j].cam, "cameras of matches")
    S.reach()


@scratch
def ascending(S, files):
    """Images in time, of different names."""
    n = 3
    ticks = [S.int("t%d" % i, 0, 9) for i in range(n)]
    fine = S.and_(*[a <= b for a, b in zip(ticks[:-1], ticks[1:])])
    try:
        images, m = sequence(S, ticks)
    except ValueError:
        S.check(S.not_(fine), "refused only if not in order")
        S.reach()
        return
    S.check(fine, "refused if not in order")
    images[2].path = "other/i0.jpg"
    detected = lambda: detect(S, m)
    S.raises(ValueError, detected, "images of the same name")
    m.keypoints = ["k"] * n
    S.raises(ValueError, lambda: m.build_matches(), "images of the same name")
    S.reach()


@scratch
def keypoints(S, files):
    """Keypoints are those in memory, else of the file, else detected."""
    n = 1
    images, m = sequence(S, [0])
    flag = lambda name: S.concrete(S.bool(name))
    read, written, overwrite = flag("read"), flag("written"), flag("overwrite")
    path, drop, keep = flag("path"), flag("clear_keypoints"), flag("keep_images")
    color = flag("color")
    calls = []
    a = S.concrete(S.int("pixel", 0, 9))
    images[0].pixels = np.array([[[a, a + 1, a + 5]]], dtype=np.uint8) if color else np.array([[a + 2]], dtype=np.uint8)

    def found(array, mask=None, **k):
        calls.append((array, mask, k))
        return "new"

    S.patch(optimize, "detect_keypoints", found)
    if read:
        m.keypoints = ["memory"]
    if written:
        files.put("i0.pkl", "file")
    kw = dict(overwrite=overwrite, clear_keypoints=drop, clear_images=not keep, nfeatures=5)
    if path:
        kw["path"] = files.root
    if drop and not path:
        S.raises(ValueError, lambda: m.build_keypoints(**kw), "keypoints neither kept nor written")
        S.reach()
        return
    mask = np.ones((1, 1), dtype=np.uint8)
    kw["masks"] = mask if flag("one_mask") else [mask]
    m.build_keypoints(**kw)
    held = written and path
    new = overwrite or not (read or held)
    value = "new" if new else "memory" if read else "file"
    S.check(len(m.keypoints) == 1, "one for each image")
    if drop:
        S.check(m.keypoints[0] is None, "keypoints cleared")
    else:
        S.check(m.keypoints[0] == value, "keypoints")
    S.check(len(calls) == int(new), "detected only if needed")
    if new:
        array, got, k = calls[0]
        S.check(got is mask and k == dict(nfeatures=5), "arguments of detection")
        S.check(array.dtype == np.uint8 and array.tolist() == [[a + 2]], "pixels in gray")
        S.check((images[0].array is None) == (not keep), "images cleared")
    if path:
        S.check(files.get("i0.pkl") == ("new" if new else "file" if written else "memory"), "file")
        S.check(len(files.wrote) == int(new or not written), "written only if needed")
    else:
        S.check(not files.wrote, "no file without path")
        S.check(files.get("i0.pkl") == ("file" if written else None), "file unchanged")
    S.reach()


@scratch
def matches(S, files):
    """Matches are those of the file, else of the keypoints, converted and filtered."""
    n = 3
    images, m = sequence(S, [0, 1, 2])
    flag = lambda name: S.concrete(S.bool(name)) if name in S.config["flags"] else bool(S.config.get(name))
    detect(S, m)
    path, kpath, overwrite, drop = flag("path"), flag("keypoints_path"), flag("overwrite"), flag("clear_matches")
    weights, keepk = flag("weights"), flag("keep_keypoints")
    size = {}
    data = {}
    for i, j in itertools.combinations(range(n), 2):
        s = size[i, j] = S.config.get("sizes", (2, 0, 1))[i + j - 1]
        data[i, j] = [S.reals("a%d%d" % (i, j), (s, 2), 0, 6), S.reals("b%d%d" % (i, j), (s, 2), 0, 6), S.reals("r%d%d" % (i, j), (s,), 0.25, 0.75)]
    calls = []

    def match(a, b, return_ratios=False, **k):
        i, j = int(a[1:]), int(b[1:])
        calls.append((i, j, k))
        d = data[i, j]
        return tuple(x.copy() for x in (d if return_ratios else d[:2]))

    S.patch(optimize, "match_keypoints", match)
    if kpath:
        for i in range(n):
            files.put("i%d.pkl" % i, "k%d" % i)
        m.keypoints = None if flag("none") else ["k0", None, None]
    elif flag("missing"):
        m.keypoints[1] = None
        S.raises(ValueError, lambda: m.build_matches(), "keypoints missing")
        S.reach()
        return
    old = None
    if flag("written"):
        cams = [glimpse.Camera(imgsz=(8, 6), f=(2.0, 2.5)) for i in range(2)]
        old = S.reals("old", (1, 2), 0, 6)
        files.put("i0-i2.pkl", Matches(cams, (old.copy(), old + 1), weights=S.array([2.0]) if weights else None))
    kw = dict(overwrite=overwrite, clear_matches=drop, weights=weights, clear_keypoints=not keepk, max_ratio=0.5)
    if path:
        kw["path"] = files.root
    if kpath:
        kw["keypoints_path"] = files.root
    kind = dict(R=RotationMatches, XY=RotationMatchesXY, XYZ=RotationMatchesXYZ).get(S.config.get("mtype"))
    if kind:
        kw["mtype"] = kind
    few = None
    if flag("filter"):
        few = kw["filter"] = dict(min_weight=S.real("min_weight", 1, 5)) if weights else dict(max_distance=S.real("max_distance", 1, 3))
    if drop and not path:
        S.raises(ValueError, lambda: m.build_matches(**kw), "matches neither kept nor written")
        S.reach()
        return
    m.build_matches(**kw)
    used = path and old is not None and not overwrite
    todo = [p for p in data if not (used and p == (0, 2))]
    S.check(sorted((i, j) for i, j, k in calls) == todo, "matched unless written before")
    S.check(all(k == dict(max_ratio=0.5) for i, j, k in calls), "arguments passed on")
    if path:
        S.check(sorted(files.wrote) == ["i%d-i%d.pkl" % p for p in todo], "files written")
    else:
        S.check(not files.wrote, "no file without path")
    if not keepk:
        S.check(all(k is None for k in m.keypoints), "keypoints cleared")
    else:
        S.check(list(m.keypoints) == ["k%d" % i for i in range(n)], "keypoints kept")
    S.check(len(m.images) == n and all(a is b for a, b in zip(m.images, images)), "images unchanged")
    if path and not few:
        for i, j in todo:
            x = files.get("i%d-i%d.pkl" % (i, j))
            same(S, x, data[i, j], weights, "written")
    if drop:
        S.check(m.matches is None, "matches cleared")
        S.reach()
        return
    S.check(tuple(m.matches.shape) == (n, n) and len(m.matches.data) == 3, "matches of each pair")
    for x, i, j in zip(m.matches.data, m.matches.row, m.matches.col):
        S.check(type(x) is (kind or Matches), "type of matches")
        S.check(x.cams[0] is images[i].cam and x.cams[1] is images[j].cam, "cameras of matches")
        a, b, r = data[i, j]
        w = [1 / v for v in r] if weights else None
        if used and (i, j) == (0, 2):
            a, b, w = old, old + 1, [2.0] if weights else None
        sel = list(range(len(a)))
        if few:
            keep = []
            for q in sel:
                if weights:
                    S.assume(S.abs(w[q] - few["min_weight"]) >= 2**-12)
                    if w[q] >= few["min_weight"]:
                        keep.append(q)
                else:
                    d, l = (a[q][0] - b[q][0])**2 + (a[q][1] - b[q][1])**2, few["max_distance"]**2
                    S.assume(S.abs(d - l) >= 2**-12)
                    if d <= l:
                        keep.append(q)
            sel = keep
        S.check(x.size == len(sel), "number of points")
        for uv, v in zip(x.uvs, (a, b)):
            for k, q in enumerate(sel):
                S.eq(uv[k], v[q], "points")
        if weights:
            S.check(len(x.weights) == len(sel), "number of weights")
            for k, q in enumerate(sel):
                S.eq(x.weights[k], w[q], "weights")
        else:
            S.check(x.weights is None, "no weights")
    S.reach()


def same(S, x, data, weights, label):
    S.check(x is not None and x.size == len(data[0]), label + ": size")
    S.eq(x.uvs[0], data[0], label)
    S.eq(x.uvs[1], data[1], label)
    if weights:
        S.eq([w * r for w, r in zip(x.weights, data[2])], [1.0] * len(data[2]), label + ": weights")


@scratch
def state(S, files):
    """Counts, breaks, conversions and drops of any matches."""
    n = S.config["n"]
    images, m = sequence(S, range(n))
    every = list(itertools.combinations(range(n), 2))
    has = {p: S.concrete(S.bool("pair%d%d" % p)) for p in every}
    size = {p: S.concrete(S.int("size%d%d" % p, 0, S.config.get("size", 1))) if S.config.get("size") else 1 for p in every if has[p]}
    detect(S, m)
    build(S, m, {p: (S.reals("a%d%d" % p, (size[p], 2), 1, 5), S.reals("b%d%d" % p, (size[p], 2), 1, 5)) for p in size})
    objects = {(int(i), int(j)): x for x, i, j in zip(m.matches.data, m.matches.row, m.matches.col)}
    S.check(set(objects) == set(size), "pairs")
    none = KeypointMatcher(images)
    for call in (none.matches_per_image, none.images_per_image, none.match_breaks, none.filter_matches, lambda: none.drop_images(0), lambda: none.convert_matches(RotationMatches)):
        S.raises(ValueError, call, "no matches yet")
    for name in S.config["do"]:
        if name == "counts":
            S.check([int(v) for v in m.matches_per_image()] == [sum(size[p] for p in size if i in p) for i in range(n)], "points of each image")
            S.check([int(v) for v in m.images_per_image()] == [sum(int(size[p] > 0) for p in size if i in p) for i in range(n)], "images matched to each image")
        elif name == "breaks":
            few = S.concrete(S.int("min_matches", 0, n))
            want = [i for i in range(n - 1) if sum(1 for p in size if p[0] == i) < min(max(few, 1), n - 1 - i)]
            got = m.match_breaks(few) if few else m.match_breaks()
            S.check([int(i) for i in got] == want, "breaks")
        elif name == "convert":
            clear = S.concrete(S.bool("clear"))
            kind = S.concrete(S.choice("kind", [0, 1, 2]))
            kind = (RotationMatchesXY, RotationMatchesXYZ, RotationMatches)[kind]
            m.convert_matches(kind, clear_uvs=clear)
            for x, i, j in zip(m.matches.data, m.matches.row, m.matches.col):
                o = objects[int(i), int(j)]
                S.check(type(x) is kind and x.cams[0] is images[i].cam and x.cams[1] is images[j].cam, "converted in place")
                S.check((x.uvs is None) == (clear and kind is not RotationMatches), "image coordinates cleared")
                if x.uvs is not None:
                    for c in range(2):
                        S.eq(x.uvs[c], o.uvs[c], "image coordinates kept")
                for c in range(2):
                    S.eq(x.xys[c], [[(v[0] - 4) / 2.0, (v[1] - 3) / 2.5] for v in o.uvs[c]] if len(o.uvs[c]) else np.zeros((0, 2)), "converted points")
        elif name == "filter":
            lim = S.real("max_distance", 0.5, 4)
            before = {p: [uv.copy() for uv in objects[p].uvs] for p in size}
            drop = S.concrete(S.bool("clear_weights"))
            for p, x in objects.items():
                x.weights = S.array([float(1 + q) for q in range(size[p])])
            m.filter_matches(max_distance=lim, clear_weights=drop)
            S.check(len(m.matches.data) == len(size), "pairs remain")
            for x, i, j in zip(m.matches.data, m.matches.row, m.matches.col):
                a, b = before[int(i), int(j)]
                keep = []
                for q in range(len(a)):
                    d = (a[q][0] - b[q][0])**2 + (a[q][1] - b[q][1])**2
                    S.assume(S.abs(d - lim**2) >= 2**-12)
                    if d <= lim**2:
                        keep.append(q)
                S.check(x.size == len(keep), "points within reach")
                if drop:
                    S.check(x.weights is None, "weights cleared")
                else:
                    S.check(list(x.weights) == [1.0 + q for q in keep], "weights of points within reach")
                for k, q in enumerate(keep):
                    S.eq(x.uvs[0][k], a[q], "points within reach")
                    S.eq(x.uvs[1][k], b[q], "points within reach")
        elif name == "drop":
            # only pairs which leave no image unmatched, and some which do
            gone = S.concrete(S.int("gone", 0, n - 1))
            more = S.concrete(S.choice("more", [None] + list(range(n))))
            out = {gone} if more is None else {gone, more}
            m.drop_images(gone if more is None else [gone, more])
            left = {p: objects[p] for p in size if not out & set(p)}
            S.check(not any(images[i] is x for i in out for x in m.images), "images dropped")
            where = [next(i for i in range(n) if images[i] is x) for x in m.images]
            S.check(where == sorted(where) and {i for p in left for i in p} <= set(where), "images matched are kept in order")
            S.check(tuple(m.matches.shape) == (len(where),) * 2, "one row and column for each image")
            got = {(where[int(i)], where[int(j)]): x for x, i, j in zip(m.matches.data, m.matches.row, m.matches.col)}
            S.check(set(got) == set(left) and all(got[p] is left[p] for p in left), "matches of the images kept")
            S.check(list(m.keypoints) == ["k%d" % i for i in where], "keypoints of the images kept")
            # and again
            if len(where) > 1:
                m.drop_images(0)
                first = where[0]
                left = {p: x for p, x in left.items() if first not in p}
                where = [next(i for i in range(n) if images[i] is x) for x in m.images]
                got = {(where[int(i)], where[int(j)]): x for x, i, j in zip(m.matches.data, m.matches.row, m.matches.col)}
                S.check(first not in where and set(got) == set(left) and all(got[p] is left[p] for p in left), "matches left after another drop")
    S.reach()


def build(S, m, data):
    """Matches of given pairs only."""
    import scipy.sparse

    def match(a, b, **k):
        return data[int(a[1:]), int(b[1:])]

    S.patch(optimize, "match_keypoints", match)
    n = len(m.images)
    found = np.zeros((n, n), dtype=object)
    for (i, j), (a, b) in data.items():
        found[i, j] = Matches((m.images[i].cam, m.images[j].cam), (a, b))
    m.matches = scipy.sparse.coo_matrix(found)
    x = m.matches
    x.data, x.row, x.col = S.objarray(list(x.data)), S.array(x.row.tolist(), dtype=x.row.dtype), S.array(x.col.tolist(), dtype=x.col.dtype)


@scratch
def oriented(S, files):
    """Cameras of an observer are oriented by the matches of its images."""
    n = 3
    ticks = [S.int("t%d" % i, 0, 9) for i in range(n)]
    for a, b in zip(ticks[:-1], ticks[1:]):
        S.assume(a < b)
    stubs(S)
    images, _ = sequence(S, ticks)
    obs = glimpse.Observer(images)
    model = optimize.ObserverCameras(obs)
    uvs = {(i, j): (S.reals("a%d%d" % (i, j), (1, 2), 0, 6), S.reals("b%d%d" % (i, j), (1, 2), 0, 6)) for i in range(n) for j in range(i + 1, n)}
    seen = []

    def keypoints(array, mask=None, **k):
        seen.append((int(array[0, 0]), mask, k))
        return "k%d" % array[0, 0]

    S.patch(optimize, "detect_keypoints", keypoints)
    S.patch(optimize, "match_keypoints", lambda a, b, **k: tuple(v.copy() for v in uvs[int(a[1:]), int(b[1:])]))
    mask = np.ones((2, 2), dtype=bool)
    model.build_keypoints(masks=mask, contrastThreshold=0.25)
    S.check([s[0] for s in seen] == [0, 1, 2] and all(s[2] == dict(contrastThreshold=0.25) and s[1] is not None for s in seen), "keypoints of each image")
    reach = S.int("maxdt", 0, 9)
    model.build_matches(maxdt=S_delta(S, reach))
    want = [(i, j) for i, j in sorted(uvs) if S.concrete(ticks[j] - ticks[i] <= reach)]
    got = model.matches
    S.check([(int(i), int(j)) for i, j in zip(got.row, got.col)] == want, "pairs within reach")
    for m, (i, j) in zip(got.data, want):
        S.check(type(m) is RotationMatchesXYZ, "type of matches")
        S.check(m.cams[0] is images[i].cam and m.cams[1] is images[j].cam, "cameras of the images")
        for side in range(2):
            p = uvs[i, j][side][0]
            S.eq(m.xys[side], S.array([[(p[0] - 4.0) / 2.0, (p[1] - 3.0) / 2.5]]), "rays of the points")
        S.raises(NotImplementedError, lambda: m.observed(), "image points are not observed")
        S.raises(NotImplementedError, lambda: m.observed(cam=1), "image points are not observed")
    S.reach()


@scratch
def detected(S, files):
    """Detectors are given one band of the image, and their descriptors are normalized if asked for."""
    c = S.config
    bands = c.get("bands")
    pixels = S.ints("pixels", (2, 2) if bands is None else (2, 2, bands), 0, 254)
    image = Image("folder/a.jpg", S_date(S, 0), glimpse.Camera(imgsz=(2, 2), f=(2.0, 2.5)), S.array(pixels, dtype=np.uint8))
    adjusted = c.get("clahe")
    asked = []

    class Clahe:
        def apply(self, array):
            return array + S.array([[1, 1], [1, 1]], dtype=array.dtype)

    def create(**k):
        asked.append(k)
        return Clahe()

    S.patch(optimize.cv2, "createCLAHE", create)
    m = KeypointMatcher([image]) if adjusted is None else KeypointMatcher([image], clahe=adjusted)
    S.check(asked == ([] if adjusted in (None, False) else [adjusted if isinstance(adjusted, dict) else {}]), "contrast adjusted as asked for")
    n = c.get("n", 2)
    found = None if n == 0 else S.reals("d", (n, 3), 0, 9)
    given = []

    class Method:
        @staticmethod
        def create(**k):
            given.append(k)
            return Method()

        def detectAndCompute(self, array, mask=None):
            given.append((array, mask))
            return ["k%d" % i for i in range(n)], None if found is None else found.copy()

    mask = S.array([S.bools("mask%d" % i, 2) for i in range(2)], dtype=bool) if c.get("mask") else None
    kw = dict(contrastThreshold=0.25) if c.get("extra") else {}
    root = bool(c.get("root"))
    if root:
        kw["root"] = True
    m.build_keypoints(masks=mask, method=Method, **kw)
    kw.pop("root", None)
    S.check(len(given) == 2 and given[0] == kw, "arguments passed on")
    array, region = given[1]
    S.check(tuple(array.shape) == (2, 2) and array.dtype == np.uint8, "one band of bytes")
    for i, j in itertools.product(range(2), repeat=2):
        if bands is None:
            S.eq(array[i, j], pixels[i, j] + (1 if asked else 0), "pixels")
        else:
            got, total = array[i, j] - (1 if asked else 0), sum(pixels[i, j, b] for b in range(bands))
            S.check(S.and_(got * bands <= total, (got + 1) * bands > total), "mean of bands")
    if mask is None:
        S.check(region is None, "no mask")
    else:
        S.check(region.dtype == np.uint8, "mask of bytes")
        for i, j in itertools.product(range(2), repeat=2):
            S.eq(region[i, j], 1 if mask[i, j] else 0, "mask")
    keypoints, descriptors = m.keypoints[0]
    S.check(list(keypoints) == ["k%d" % i for i in range(n)], "keypoints")
    if found is None:
        S.check(descriptors is None, "no descriptors")
    elif not root:
        S.eq(descriptors, found, "descriptors")
    else:
        # rows of squares add to one
        for i in range(n):
            total = found[i, 0] + found[i, 1] + found[i, 2]
            S.assume(total >= 2**-6)
            for j in range(3):
                S.check(descriptors[i, j] >= 0, "roots")
                S.eq(descriptors[i, j] ** 2 * (total + 1e-7), found[i, j], "square roots of shares", tol=1e-5)
    S.reach()


HARNESSES = [
    H("detected", detected, [dict(), dict(bands=3, extra=True), dict(bands=2, mask=True, clahe=False), dict(clahe=True, n=0, root=True), dict(clahe=dict(clipLimit=2.0), bands=3, root=True, n=1), dict(root=True, extra=True, n=1)],
      bounds="an image of 2x2 pixels of 1-3 bands, any mask, 0-2 descriptors"),
    H("pairs", pairs, [dict(n=3), dict(n=3, maxdt=True), dict(n=4, maxdt=True, imgs=[1]), dict(n=4, seq=[1, 3]), dict(n=4, seq=[-1, 0, 2, 5, 2], maxdt=True), dict(n=3, maxdt=True, seq=[]),
                       dict(n=4, imgs=[0, 2]), dict(n=5, imgs=[0, 1, 3]), dict(n=4, seq=[1], imgs=[3, 0]), dict(n=3, imgs=[])],
      thorough=[dict(n=5, maxdt=True), dict(n=5, maxdt=True, seq=[2], imgs=[0, 3])], bounds="3-4 images at any times, any reach, sequences and selections"),
    H("ascending", ascending, bounds="3 images at any times"),
    H("keypoints", keypoints, bounds="1 image, every state of memory and file and every option"),
    H("matches", matches, [
        dict(flags=["path", "written", "overwrite", "clear_matches"]), dict(flags=["keypoints_path", "keep_keypoints", "none", "missing"], weights=True),
        dict(flags=["path", "written"], mtype="R", filter=True, weights=True), dict(flags=["path", "clear_matches"], filter=True), dict(flags=["written"], path=True, mtype="XYZ", weights=True),
        dict(flags=[], filter=True, mtype="XY", weights=True, sizes=(2, 1, 1))],
      bounds="3 images, 0-2 points for each pair, every combination of options within groups"),
    H("state", state, [dict(n=4, do=["breaks"]), dict(n=3, do=["counts"], size=2), dict(n=3, do=["convert"]), dict(n=2, do=["filter"], size=2), dict(n=3, do=["drop"]), dict(n=4, do=["drop"], )],
      bounds="3-4 images, any pairs matched, 0-2 points for each"),
    H("oriented", oriented, bounds="3 images at any times, any reach, any points"),
]
