"""Observers: finding, cutting, shifting and sampling images; subsets and splits."""
import datetime
import itertools

import numpy as np

from symx.runner import H

import glimpse
from props.common import patch_interpolation
from props.T03 import S_date, S_delta, stubs
from props.T04 import pixels

ASSUMPTIONS = ["RectBivariateSpline of order 1 is bilinear (replays use the real one)"]


class Image:
    def __init__(self, when=None, size=(5, 4), Z=None):
        self.datetime, self.size, self.Z = when, np.array(size), Z
        self.reads = []

    def read(self, box=None, cache=True):
        self.reads.append((box, cache))
        return self.Z


def observer(S, n, hi, **k):
    ticks = [S.int("t%d" % i, 0, hi) for i in range(n)]
    for a, b in zip(ticks[:-1], ticks[1:]):
        S.assume(a < b)
    images = [Image(S_date(S, t)) for t in ticks]
    return ticks, images, glimpse.Observer(images, **k)


def index(S):
    """The image itself, or the nearest in time within reach."""
    stubs(S)
    n = S.config["n"]
    ticks, images, obs = observer(S, n, 8)
    for i, img in enumerate(images):
        S.check(obs.index(img) == i, "index of image")
    S.raises(ValueError, lambda: obs.index(Image()), "image of another")
    t = S.int("t", -2, 10)
    reach = S.int("reach", -3, 3)
    d = [S.abs(t - v) for v in ticks]
    mode = S.choice("mode", [0, 1, 2])
    k = [{}, dict(maxdt=None), dict(maxdt=S_delta(S, reach))][mode]
    limit = [0, 100, S.abs(reach)][mode]
    try:
        i = int(obs.index(S_date(S, t), **k))
    except ValueError:
        S.check(S.and_(*[v > limit for v in d]), "refused only if none within reach")
    else:
        S.check(S.and_(d[i] <= limit, *[d[i] <= v for v in d]), "nearest within reach")
    S.reach()


def order(S):
    """Images strictly increase in time."""
    n = S.config["n"]
    ticks = [S.int("t%d" % i, 0, 3) for i in range(n)]
    images = [Image(S_date(S, t)) for t in ticks]
    missing = S.concrete(S.int("missing", -1, n - 1))
    if missing >= 0:
        images[missing].datetime = None
    fine = S.and_(*[a < b for a, b in zip(ticks[:-1], ticks[1:])]) if n > 1 and missing < 0 else False
    try:
        obs = glimpse.Observer(images)
    except ValueError:
        S.check(S.not_(fine), "accepted")
    else:
        S.check(fine, "refused if too few, without time or out of order")
        S.check(len(obs.images) == n and all(a is b for a, b in zip(obs.images, images)), "images kept")
    S.reach()


def tile_box(S):
    """The box of pixels of the size asked, nearest to the point."""
    nx, ny = S.config["size"]
    w, h = S.config["tile"]
    obs = glimpse.Observer([Image(datetime.datetime(2020, 1, d), (nx, ny), Z=d) for d in (1, 2)], cache=bool(S.config.get("cache")))
    u = S.array([S.real("u", 0, nx), S.real("v", 0, ny)])
    try:
        box = obs.tile_box(u, size=(w, h), img=0)
    except (IndexError, ValueError):
        S.check(S.or_(u[0] < w / 2, u[0] > nx - w / 2, u[1] < h / 2, u[1] > ny - h / 2), "refused only if beyond image")
        return S.reach()
    S.check(all(float(S.concrete(S.floori(b))) == b for b in box), "whole pixels")
    S.eq(S.array([box[2] - box[0], box[3] - box[1]]), np.array([w, h]), "size")
    S.check(S.and_(box[0] >= 0, box[1] >= 0, box[2] <= nx, box[3] <= ny), "within image")
    for k in (0, 1):
        S.check(S.abs((box[k] + box[2 + k]) / 2 - u[k]) <= 0.5, "within half a pixel of the point")
    # read as asked
    got = obs.extract_tile(box, img=1)
    img = obs.images[1]
    S.check(got == 2 and len(img.reads) == 1 and img.reads[0][1] == obs.cache, "reads the image of the index")
    S.eq(S.array(list(img.reads[0][0])), box, "reads the box")
    S.reach()


def shift(S):
    """Each pixel of the result is the tile that far away, between pixels linearly."""
    patch_interpolation(S)
    ny, nx = S.config["shape"]
    bands = S.config.get("bands", 0)
    obs = glimpse.Observer([Image(datetime.datetime(2020, 1, d)) for d in (1, 2)])
    kind = S.config.get("dtype", float)
    if kind is float:
        Z = [pixels(S, "z%d" % b, (ny, nx)) for b in range(max(bands, 1))]
    else:
        Z = [S.array((np.arange(ny * nx).reshape(ny, nx) * (7 + b) % 11).astype(kind)) for b in range(max(bands, 1))]
    tile = Z[0].copy() if not bands else np.stack(Z, axis=2)
    before = tile.copy()
    d = [S.real("du", -0.75, 0.75), S.real("dv", -0.75, 0.75)]
    for q in d:
        S.assume(S.or_(S.abs(q) >= 2**-12, q == 0))
        S.assume(S.or_(S.abs(q) >= 0.5 + 2**-12, S.abs(q) <= 0.5 - 2**-12))
    try:
        got = obs.shift_tile(tile, duv=d, kx=1, ky=1)
    except ValueError:
        S.check(S.or_(S.abs(d[0]) > 0.5, S.abs(d[1]) > 0.5), "refused only beyond half a pixel")
        return S.reach()
    S.check(S.and_(S.abs(d[0]) <= 0.5, S.abs(d[1]) <= 0.5), "refused beyond half a pixel")
    S.check(tuple(got.shape[:2]) == (ny, nx) and got.ndim in (2, 2 + bool(bands)), "shape")
    S.eq(tile, before, "tile unchanged")

    def at(z, i, j):
        return z[min(max(i, 0), ny - 1), min(max(j, 0), nx - 1)]

    sx, sy = 1 if d[0] > 0 else -1, 1 if d[1] > 0 else -1
    f, g = S.abs(d[0]), S.abs(d[1])
    for b, z in enumerate(Z):
        r = got if got.ndim == 2 else got[:, :, b]
        for i, j in itertools.product(range(ny), range(nx)):
            want = (at(z, i, j) * (1 - f) * (1 - g) + at(z, i, j + sx) * f * (1 - g)
                    + at(z, i + sy, j) * (1 - f) * g + at(z, i + sy, j + sx) * f * g)
            S.eq(r[i, j], want, "value of tile shifted")
    S.reach()


def sample(S):
    """Bilinear in pixel centers, for tiles of any resolution; points beyond are refused."""
    patch_interpolation(S)
    ny, nx = S.config["shape"]
    obs = glimpse.Observer([Image(datetime.datetime(2020, 1, d)) for d in (1, 2)])
    tile = pixels(S, "z", (ny, nx))
    k = S.config.get("cells", (1, 1))
    o = [S.real("x0", -4, 4), S.real("y0", -4, 4)] if S.config.get("anywhere") else [2, 1]
    box = [o[0], o[1], o[0] + nx * k[0], o[1] + ny * k[1]]
    # positions relative to pixel centers
    def place(name, n, k):
        c = S.concrete(S.int(name + "i", 0, n - 2))
        f = S.real(name + "f", 2**-8, 1 - 2**-8)
        return c, f, (c + 0.5 + f) * k
    grid = bool(S.config.get("grid"))
    nu = 1 if not grid else 2
    us = sorted((place("u%d" % i, nx, k[0]) for i in range(nu)), key=lambda p: p[0])
    vs = sorted((place("v%d" % i, ny, k[1]) for i in range(1)), key=lambda p: p[0])
    if grid:
        S.assume(us[0][2] <= us[1][2] - 2**-8)
        x, y = [o[0] + p[2] for p in us], [o[1] + p[2] for p in vs]
        beyond = S.concrete(S.int("beyond", 0, 4))
        if beyond:
            e = S.real("e", 2**-8, 4)
            s, q = divmod(beyond - 1, 2)
            (x, y)[q][-1 if s else 0] = box[2 + q] + e if s else box[q] - e
            S.raises(ValueError, lambda: obs.sample_tile((S.array(x), S.array(y)), tile, box, grid=True, kx=1, ky=1), "refused beyond box")
            return S.reach()
        uv = (S.array(x), S.array(y))
    else:
        beyond = S.concrete(S.int("beyond", 0, 4))
        p = [o[0] + us[0][2], o[1] + vs[0][2]]
        if beyond:
            e = S.real("e", 2**-8, 4)
            s, q = divmod(beyond - 1, 2)
            p[q] = box[q] - e if s == 0 else box[2 + q] + e
            S.raises(ValueError, lambda: obs.sample_tile(S.array([p]), tile, box, kx=1, ky=1), "refused beyond box")
            return S.reach()
        uv = S.array([p])
    got = obs.sample_tile(uv, tile, box, grid=grid, kx=1, ky=1)
    S.check(tuple(got.shape) == ((len(vs), len(us)) if grid else (1,)), "shape")
    for i, j in itertools.product(range(len(vs)), range(len(us))):
        (r, g, _), (c, f, _) = vs[i], us[j]
        want = (tile[r, c] * (1 - f) * (1 - g) + tile[r, c + 1] * f * (1 - g)
                + tile[r + 1, c] * (1 - f) * g + tile[r + 1, c + 1] * f * g)
        S.eq(got[i, j] if grid else got[0], want, "value at point", tol=1e-5)
    S.reach()


def subset(S):
    """The images within the times asked, in order, with the settings of the observer."""
    n = S.config["n"]
    ticks, images, obs = observer(S, n, 6, sigma=0.5, cache=False)
    a, b = S.int("a", 0, 6), S.int("b", 0, 6)
    S.assume(a <= b)
    kw = dict(start=S_date(S, a), end=S_date(S, b))
    drop = S.choice("drop", [0, 1, 2])
    if drop:
        kw.pop(["start", "end"][drop - 1])
    want = []
    for t, img in zip(ticks, images):
        if S.and_(True if drop == 1 else t >= a, True if drop == 2 else t <= b):
            want.append(img)
    try:
        out = obs.subset(**kw)
    except ValueError:
        S.check(len(want) < 2, "refused only if fewer than two images")
        return S.reach()
    S.check(len(out.images) == len(want) and all(p is q for p, q in zip(out.images, want)), "images within")
    S.check(out.sigma == 0.5 and out.cache is False and type(out) is type(obs), "settings kept")
    S.check(len(obs.images) == n and all(p is q for p, q in zip(obs.images, images)), "observer unchanged")
    S.reach()


def split(S):
    """Observers that together hold each image, each with the last images of the one before."""
    n = S.config["n"]
    ticks, images, obs = observer(S, n, S.config.get("hi", 12), sigma=0.25, cache=False)
    overlap = S.config["overlap"]
    breaks = None
    if "parts" in S.config:
        arg = parts = S.config["parts"]
    else:
        # breaks of the caller
        breaks = [S.int("b%d" % i, 0, 12) for i in range(S.config["breaks"])]
        for b in breaks:
            S.assume(S.and_(b > ticks[0], b < ticks[-1]))
        for p, q in zip(breaks[:-1], breaks[1:]):
            S.assume(p < q)
        arg = [S_date(S, b) for b in breaks]
        if S.config.get("ends"):
            # the ends themselves, in any order
            arg = [S_date(S, ticks[-1])] + arg + [S_date(S, ticks[0])]
        parts = len(breaks) + 1
    try:
        out = obs.split(arg, overlap=overlap)
    except ValueError:
        # only if one of them would be left with a single image
        first, bad = 0, False
        for k in range(parts):
            last = first - 1
            for i, t in enumerate(ticks):
                end = within(S, ticks, breaks, parts, k, t)
                if end:
                    last = i
            bad = bad or last - first + 1 < 2
            first = max(last + 1 - overlap, first)
        S.check(bad, "refused only if an observer would have fewer than two images")
        return S.reach()
    S.check(len(out) == parts, "number of observers")
    ids = {id(img): i for i, img in enumerate(images)}
    runs = [[ids[id(img)] for img in o.images] for o in out]
    for r in runs:
        S.check(r == list(range(r[0], r[-1] + 1)), "images in order, without gaps")
    S.check(runs[0][0] == 0, "first image kept")
    S.check(runs[-1][-1] == n - 1, "last image kept")
    for p, q in zip(runs[:-1], runs[1:]):
        S.check(q[0] == p[-1] + 1 - min(overlap, len(p)), "overlap")
    for k, r in enumerate(runs):
        for i in r:
            S.check(within(S, ticks, breaks, parts, k, ticks[i]), "images up to the break")
        if r[-1] + 1 < n:
            S.check(S.not_(within(S, ticks, breaks, parts, k, ticks[r[-1] + 1], slack=-1)), "all images up to the break")
    S.check(all(o.sigma == 0.25 and o.cache is False for o in out), "settings kept")
    S.reach()


def within(S, ticks, breaks, parts, k, t, slack=1):
    """Whether a time is up to the end of part k."""
    if breaks is not None:
        return t <= (breaks + [ticks[-1]])[k]
    # equal parts, to within the resolution of time
    return (t - ticks[0]) * parts <= (ticks[-1] - ticks[0]) * (k + 1) + (slack * 0.001 if k < parts - 1 else 0)


def cached(S):
    """Images asked for are read into memory, or let go, and no others."""
    n = S.config["n"]
    ticks, images, obs = observer(S, n, 8)
    stubs(S)
    Z = [S.reals("z%d" % i, (2, 2), -9, 9) for i in range(n)]

    class Photo(glimpse.Image):
        def read(self, box=None, cache=True):
            reads.append((self, cache))
            if self.array is None and cache:
                self.array = Z[self.i].copy()
            return Z[self.i] if self.array is None else self.array

    reads = []
    for i, img in enumerate(images):
        img.__class__ = type("Photo", (Image, Photo), dict(read=Photo.read))
        img.i, img.array = i, None
    held = set()
    for step in range(S.config["steps"]):
        kind = S.concrete(S.choice("index%d" % step, ["all", "list", "slice", "mask"]))
        i = S.concrete(S.int("i%d" % step, 0, n - 1))
        which = {"all": range(n), "list": [i], "slice": range(i, n), "mask": [j for j in range(n) if j != i]}[kind]
        k = {"all": (), "list": ([i],), "slice": (slice(i, None),), "mask": (np.array([j != i for j in range(n)]),)}[kind]
        if S.concrete(S.bool("cache%d" % step)):
            obs.cache_images(*k)
            held |= set(which)
        else:
            obs.clear_images(*k)
            held -= set(which)
        for j, img in enumerate(images):
            S.check((img.array is not None) == (j in held), "images in memory")
    S.check(all(obs.images[j] is images[j] for j in range(n)), "the same images")
    for j in held:
        S.eq(images[j].array, Z[j], "pixels in memory")
    S.reach()


HARNESSES = [
    H("index", index, [dict(n=2), dict(n=3)], bounds="2-3 images at any times, any time, any reach"),
    H("order", order, [dict(n=1), dict(n=2), dict(n=3)], bounds="1-3 images at any times"),
    H("tile_box", tile_box, [dict(size=(5, 4), tile=(2, 3)), dict(size=(4, 5), tile=(3, 2), cache=True), dict(size=(3, 3), tile=(3, 1))], bounds="images of up to 5x5 pixels, points anywhere"),
    H("shift", shift, [dict(shape=(2, 3)), dict(shape=(3, 2), bands=2), dict(shape=(3, 3), bands=3, dtype="uint8"), dict(shape=(2, 3), dtype="int16"), dict(shape=(2, 2), bands=1)], bounds="tiles of up to 3x3 pixels and 3 bands, any shift"),
    H("sample", sample, [dict(shape=(3, 4), anywhere=True), dict(shape=(4, 3), cells=(2, 2)), dict(shape=(2, 5), cells=(0.5, 2)), dict(shape=(3, 3), cells=(2, 0.5)), dict(shape=(3, 4), grid=True), dict(shape=(4, 3), grid=True, cells=(2, 1))], bounds="tiles of up to 4x5 pixels of any values, 3 resolutions"),
    H("subset", subset, [dict(n=3), dict(n=4)], bounds="3-4 images at any times"),
    H("split", split, [dict(n=3, parts=2, overlap=1), dict(n=4, parts=3, overlap=1), dict(n=5, parts=2, overlap=0), dict(n=5, parts=2, overlap=2), dict(n=4, breaks=1, overlap=1), dict(n=6, breaks=2, overlap=0), dict(n=5, breaks=2, overlap=2), dict(n=4, breaks=1, overlap=3), dict(n=5, breaks=2, overlap=4), dict(n=4, breaks=1, overlap=1, ends=True), dict(n=4, parts=2, overlap=0, tick=250000), dict(n=4, breaks=1, overlap=0, tick=1)],
      thorough=[dict(n=6, parts=3, overlap=0), dict(n=6, parts=3, overlap=2)], bounds="3-5 images at any times, into 2-3 parts"),
    H("cached", cached, [dict(n=2, steps=2), dict(n=3, steps=1)], bounds="2-3 images, 1-2 requests"),
]
