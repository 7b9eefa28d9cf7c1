"""How likely particles are given an image: template matching."""
import datetime
import itertools
import math
import types
import warnings

import numpy as np
import scipy.ndimage

from symx.runner import H

import glimpse
from glimpse.track import tracker as module
from props.common import patch_interpolation

ASSUMPTIONS = ["cv2.matchTemplate(TM_SQDIFF) is the sum of squared differences, in exact arithmetic (replays use the real one)",
               "RectBivariateSpline of order 1 is bilinear (replays use the real one)"]


class Image:
    """An image of given pixels, in which world coordinates are image coordinates."""

    def __init__(self, Z, day):
        self.Z = Z
        self.datetime = datetime.datetime(2020, 1, 1 + day)
        self.size = np.array(Z.shape[1::-1])

    def xyz_to_uv(self, xyz):
        if xyz.shape[1] != 3:
            raise ValueError("world coordinates are (x, y, z)")
        return xyz[:, 0:2].copy()

    def inbounds(self, uv):
        return glimpse.Grid(self.size).inbounds(uv)

    def read(self, box=None, cache=True):
        if box is None:
            return self.Z.copy()
        l, t, r, b = [int(v) for v in box]
        return self.Z[t:b, l:r].copy()


class Raw(glimpse.Tracker):
    """Pixels compared as they are."""

    def extract_tile(self, obs, img, box, histogram=None, return_histogram=False):
        tile = self.observers[obs].extract_tile(box=box, img=img)
        return (tile, "histogram of the template") if return_histogram else tile


def cv2(S):
    if not S.symbolic:
        return

    def matchTemplate(image, templ, method=None, **k):
        (H, W), (h, w) = image.shape, templ.shape
        out = [[sum((image[i + a, j + b] - templ[a, b]) ** 2 for a in range(h) for b in range(w))
                for j in range(W - w + 1)] for i in range(H - h + 1)]
        return S.array(out, dtype=np.float32)

    real = module.cv2
    S.patch(module, "cv2", types.SimpleNamespace(matchTemplate=matchTemplate, TM_SQDIFF=real.TM_SQDIFF))


def pixels(S, name, shape, few=None):
    """Any pixel values (or any in a window, none elsewhere)."""
    if few is None:
        return S.reals(name, shape, -4, 4)
    rows, cols = few
    Z = S.array(np.zeros(shape).tolist())
    Z[rows[0]:rows[1], cols[0]:cols[1]] = S.reals(name, (rows[1] - rows[0], cols[1] - cols[0]), -4, 4)
    return Z


def likelihood(S):
    """Half the mean squared difference between template and image displaced as the particle."""
    patch_interpolation(S)
    cv2(S)
    ny, nx = S.config["shape"]
    tx, ty = S.config["tile"]
    A, B = pixels(S, "a", (ny, nx)), pixels(S, "b", (ny, nx))
    sigma = S.real("sigma", 0.25, 2)
    k = S.config.get("other", 0)
    obs = [glimpse.Observer([Image(A, 0), Image(B, 1)], sigma=sigma)]
    if k:
        obs.insert(0, glimpse.Observer([Image(B, 0), Image(A, 1)], sigma=1.0))
    t = Raw(observers=obs, interpolation={"kx": 1, "ky": 1})
    # template around the mean of the particles
    c = S.config["at"]
    u0 = S.array([c[0] + S.real("u", 2**-6, 1 - 2**-6), c[1] + S.real("v", 2**-6, 1 - 2**-6)])
    for q, n in ((u0[0], tx), (u0[1], ty)):
        S.assume(S.abs(q - c[0] - 0.5) >= 2**-6 if n % 2 == 0 else True)
        S.assume(S.abs(q - c[1] - 0.5) >= 2**-6 if n % 2 == 0 else True)
    z = S.real("z", -4, 4)
    t.particles = S.array([[u0[0], u0[1], z, 0.0, 0.0, 0.0]] * 2)
    t.weights = S.array([1.0, 3.0])
    t.initialize_template(obs=k, img=0, tile_size=(tx, ty))
    # particles displaced by whole pixels and fractions
    D = S.config["moves"]
    move = []
    for i, (dx, dy) in enumerate(D):
        move.append((dx + S.real("dx%d" % i, 2**-6, 1 - 2**-6), dy + S.real("dy%d" % i, 2**-6, 1 - 2**-6)))
    P = S.array([[u0[0] + dx, u0[1] + dy, z, 0.0, 0.0, 0.0] for dx, dy in move])
    t.particles = P.copy()
    t.weights = S.array([1.0] * len(D))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = t.compute_observer_log_likelihoods(k, 1)
    # the template: pixels of the box of this size nearest to the mean
    lo = []
    for q, n in ((u0[0], tx), (u0[1], ty)):
        b = None
        for e in range(0, max(nx, ny) - n + 1):
            if S.and_(q - n / 2 - e <= 0.5, q - n / 2 - e >= -0.5):
                b = e
                break
        lo.append(b)
    if lo[0] is None or lo[1] is None:
        return
    T = A[lo[1]:lo[1] + ty, lo[0]:lo[0] + tx]

    def diff(ox, oy):
        W = B[lo[1] + oy:lo[1] + oy + ty, lo[0] + ox:lo[0] + ox + tx]
        return sum((a - b) ** 2 for a, b in zip(W.flat, T.flat)) / (tx * ty)

    if S.config.get("beyond"):
        S.check(got is None, "skipped near image bounds")
        return S.reach()
    S.check(got is not None and tuple(got.shape) == (len(D),), "a likelihood for each particle")
    for (dx, dy), (mx, my), l in zip(D, move, got):
        f, g = mx - dx, my - dy
        want = (diff(dx, dy) * (1 - f) * (1 - g) + diff(dx + 1, dy) * f * (1 - g)
                + diff(dx, dy + 1) * (1 - f) * g + diff(dx + 1, dy + 1) * f * g)
        S.eq(l * 2 * sigma * sigma, want, "mean squared difference at the displacement of the particle", tol=2e-3)
    S.eq(t.particles, P, "particles unchanged")
    S.check(t.compute_observer_log_likelihoods(k, None) is None, "no image, no likelihood")
    S.reach()


def room(S):
    """Where the particles are few or close, there is still room to interpolate, and around each."""
    kx, ky = S.config["order"]
    nx, ny = S.config["spread"]
    tx, ty = S.config["tile"]
    seen = []

    class Spline:
        def __init__(self, x, y, z, kx=3, ky=3, **k):
            seen.append((list(x), list(y), tuple(z.shape), kx, ky))

        def __call__(self, x, y, grid=True, **k):
            seen.append((list(x), list(y)))
            return S.array([0.0] * len(x))

    S.patch(glimpse.track.observer.scipy, "interpolate", types.SimpleNamespace(RectBivariateSpline=Spline))
    cv2(S)
    Z = S.array(np.zeros((16, 16)).tolist())
    t = Raw(observers=[glimpse.Observer([Image(Z, 0), Image(Z, 1)])], interpolation={} if S.config.get("bare") else {"kx": kx, "ky": ky})
    t.particles = S.array([[8.25, 8.25, 0.0, 0.0, 0.0, 0.0]] * 2)
    t.weights = S.array([1.0, 1.0])
    t.initialize_template(obs=0, img=0, tile_size=(tx, ty))
    at = [[S.concrete(S.int("%s%d" % (a, i), 6, 6 + (n if i else 0))) + S.real("%sf%d" % (a, i), 2**-6, 1 - 2**-6) for i in range(2)] for a, n in (("x", nx), ("y", ny))]
    t.particles = S.array([[at[0][i], at[1][i], 0.0, 0.0, 0.0, 0.0] for i in range(2)])
    got = t.compute_observer_log_likelihoods(0, 1)
    S.check(got is not None and len(seen) == 2, "a likelihood for each particle")
    (x, y, shape, a, b), (px, py) = seen
    S.check((a, b) == (kx, ky), "of the orders asked")
    S.check(shape == (len(x), len(y)) and len(x) > kx and len(y) > ky, "enough values for the order")
    for i in range(2):
        S.eq([px[i], py[i]], [at[1][i], at[0][i]], "at the particle")
        S.check(S.and_(px[i] >= x[0] - 0.5, px[i] <= x[-1] + 0.5, py[i] >= y[0] - 0.5, py[i] <= y[-1] + 0.5), "around the particle")
    S.reach()


def _median(S):
    def median_filter(x, size=None, **k):
        if k or S.concrete(0):
            raise NotImplementedError("median filter options")
        size = (size,) * x.ndim if np.ndim(size) == 0 else tuple(size)
        half = [n // 2 for n in size]
        out = x.copy()
        for idx in np.ndindex(x.shape):
            vals = []
            for off in itertools.product(*[range(-h, n - h) for h, n in zip(half, size)]):
                q = []
                for i, o, n in zip(idx, off, x.shape):
                    p = i + o
                    while p < 0 or p >= n:
                        p = -p - 1 if p < 0 else 2 * n - p - 1
                    q.append(p)
                vals.append(x[tuple(q)])
            r = sorted(vals) if not S.symbolic else list(np.sort(S.array(vals)))
            out[idx] = r[len(r) // 2]
        return out

    return median_filter


def setup(S, Z, W, highpass):
    if S.symbolic:
        f = _median(S)
        S.patch(module.scipy, "ndimage", types.SimpleNamespace(filters=types.SimpleNamespace(median_filter=f), median_filter=f))
    return glimpse.Tracker(observers=[glimpse.Observer([Image(Z, 0), Image(W, 1)])], highpass=highpass)


K = [np.array([[1.0, 4.0, 2.0], [7.0, 3.0, 9.0]]), np.array([[5.0, 5.0, 1.0], [2.0, 8.0, 5.0], [0.0, 3.0, 3.0]])]


def tiles(S):
    """Brightness and contrast do not matter to tiles; the median is removed."""
    A = K[S.config["k"]]
    gain, offset = S.real("gain", 0.25, 4), S.real("offset", -100, 100)
    Z = S.array(A.tolist()) * gain + offset
    if S.config.get("color"):
        # channels of which it is the mean
        e = S.real("e", -8, 8)
        Z3 = np.stack((Z + e, Z, Z - e), axis=2) if not S.symbolic else S.array([[[v + e, v, v - e] for v in row] for row in Z.tolist()])
    else:
        Z3 = Z
    t = setup(S, Z3, Z3, {"size": S.config["size"]})
    ny, nx = A.shape
    box = (0, 0, nx, ny)
    N = (A - A.mean()) / A.std()
    want = N - scipy.ndimage.median_filter(N, size=S.config["size"])
    got, hist = t.extract_tile(obs=0, img=0, box=box, return_histogram=True)
    S.eq(got, want, "normalized, without its median", tol=1e-5)
    v, q = np.unique(N.round(9), return_counts=True)
    S.eq(hist[0], v, "values of histogram", tol=1e-5)
    S.eq(hist[1], q.cumsum() / N.size, "quantiles of histogram")
    # matched to its own histogram, unchanged
    again = t.extract_tile(obs=0, img=1, box=box, histogram=hist)
    S.eq(again, want, "matched to itself", tol=1e-5)
    S.reach()


def matched(S):
    """Any increasing change of brightness is undone by matching the histogram."""
    A = K[S.config["k"]]
    levels = sorted(set(A.flat))
    new, v = {}, S.real("l0", 0, 4)
    for i, l in enumerate(levels):
        new[l] = v
        v = v + S.real("s%d" % i, 2**-3, 4)
    Z = S.array([[new[x] for x in row] for row in A.tolist()])
    t = setup(S, S.array(A.tolist()), Z, {"size": S.config["size"]})
    ny, nx = A.shape
    box = (0, 0, nx, ny)
    want, hist = t.extract_tile(obs=0, img=0, box=box, return_histogram=True)
    got = t.extract_tile(obs=0, img=1, box=box, histogram=hist)
    S.eq(got, want, "as the template", tol=1e-5)
    S.reach()


HARNESSES = [
    H("likelihood", likelihood, [
        dict(shape=(7, 7), tile=(2, 3), at=(3, 3), moves=[(0, 0), (1, 1)]),
        dict(shape=(7, 6), tile=(3, 2), at=(2, 3), moves=[(0, -1), (1, 1)], other=1),
        dict(shape=(7, 8), tile=(3, 3), at=(3, 3), moves=[(-1, 0)]),
        dict(shape=(5, 5), tile=(3, 3), at=(2, 2), moves=[(-2, 0), (0, 0)], beyond=True),
        dict(shape=(5, 5), tile=(3, 3), at=(2, 2), moves=[(0, 0), (0, 4)], beyond=True),
    ], bounds="images of up to 7x8 pixels of any values, templates of up to 3x3 pixels, 1-2 particles at any fraction of a pixel", budget_s=100),
    H("room", room, [dict(order=(3, 3), spread=(0, 0), tile=(3, 3)), dict(order=(3, 3), spread=(4, 0), tile=(3, 2)), dict(order=(3, 3), spread=(0, 4), tile=(2, 3), bare=True),
                     dict(order=(2, 4), spread=(1, 1), tile=(3, 3)), dict(order=(4, 1), spread=(2, 2), tile=(2, 2))], bounds="2 particles up to 4 pixels apart, splines of order 1-4"),
    H("tiles", tiles, [dict(k=0, size=(1, 3)), dict(k=1, size=(3, 3)), dict(k=0, size=(3, 1), color=True)], bounds="tiles of 2x3 and 3x3 pixels of fixed pattern, any brightness and contrast"),
    H("matched", matched, [dict(k=0, size=(3, 3)), dict(k=1, size=(1, 3))], bounds="tiles of 2x3 and 3x3 pixels of fixed pattern, any increasing change of brightness"),
]
