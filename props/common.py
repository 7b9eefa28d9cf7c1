"""Builders shared by the harnesses."""
import numpy as np

import glimpse


def dms(S, name):
    return S.angle(name)


def camera(S, imgsz=(7, 5), angles=True, pos=True, f=None, c=None, tag="", **kw):
    """A camera with symbolic focal length, principal point, position and angles."""
    if f is None:
        f = S.reals(tag + "f", 2, 1, 100)
    if c is None:
        c = S.reals(tag + "c", 2, -4, 4)
    xyz = S.reals(tag + "cam", 3, -50, 50) if pos else (0, 0, 0)
    if angles:
        vd = S.array([S.angle(tag + n) for n in ("yaw", "pitch", "roll")])
    else:
        vd = (0, 0, 0)
    return glimpse.Camera(imgsz=imgsz, f=f, c=c, xyz=xyz, viewdir=vd, **kw)


def rotation(S, viewdir):
    """Camera rotation from first principles: rows are the camera's right, down and
    optical axes in world coordinates (x east, y north, z up)."""
    rad = viewdir * (np.pi / 180)
    (cy, cp, cr), (sy, sp, sr) = [S.cos(a) for a in rad], [S.sin(a) for a in rad]
    # yaw: clockwise from north
    fwd = (sy, cy, 0)  # horizontal heading
    right = (cy, -sy, 0)
    up = (0, 0, 1)
    # pitch: raise the optical axis
    axis = [cp * a + sp * b for a, b in zip(fwd, up)]
    up2 = [cp * b - sp * a for a, b in zip(fwd, up)]
    # roll: + tilts the right side down (clockwise seen from behind)
    x = [cr * a - sr * b for a, b in zip(right, up2)]
    u = [cr * b + sr * a for a, b in zip(right, up2)]
    y = [-v for v in u]
    return [x, y, axis]


def pinhole(S, cam, d, R=None):
    """Undistorted camera coordinates and depth of a direction d."""
    R = R or rotation(S, cam.viewdir)
    q = [sum(r[i] * d[i] for i in range(3)) for r in R]
    return q


def brown(S, k, p, x, y):
    """Brown-Conrady distortion, with every coefficient."""
    r2 = x * x + y * y
    num = 1 + k[0] * r2 + k[1] * r2**2 + k[2] * r2**3
    den = 1 + k[3] * r2 + k[4] * r2**2 + k[5] * r2**3
    dr = num / den
    return (x * dr + 2 * x * y * p[0] + p[1] * (r2 + 2 * x * x),
            y * dr + p[0] * (r2 + 2 * y * y) + 2 * x * y * p[1])


# ---- scipy.interpolate, as documented (for symbolic runs; replays use the real one) ----


class _Grid1d:
    """Where a coordinate falls among ascending coordinates (extrapolating)."""

    @staticmethod
    def cell(x, q):
        n = len(x)
        for i in range(n - 2):
            if q <= x[i + 1]:
                return i
        return n - 2

    @staticmethod
    def nearest(x, q):
        n = len(x)
        for i in range(n - 1):
            if q <= (x[i] + x[i + 1]) / 2:
                return i
        return n - 1


class Interpolation:
    """Linear and nearest interpolation on grids and lines."""

    def __init__(self, S):
        self.S = S
        outer = self

        class RegularGridInterpolator:
            def __init__(self, points, values, method="linear", bounds_error=True, fill_value=np.nan):
                points = tuple(np.asarray(p) for p in points)
                if values.dtype.kind in "iub":
                    values = values.astype(float)  # a copy, as scipy does
                flips = [bool(p[0] > p[-1]) for p in points]
                points = tuple(p[::-1] if f else p for p, f in zip(points, flips))
                for p in points:
                    for a, b in zip(p[:-1], p[1:]):
                        if not a < b:
                            raise ValueError("points must be strictly ascending or descending")
                if tuple(len(p) for p in points) != tuple(values.shape):
                    raise ValueError("points do not match values")
                self.grid = points
                self.values = values[tuple(slice(None, None, -1 if f else 1) for f in flips)]
                self.method, self.bounds_error, self.fill_value = method, bounds_error, fill_value

            def __call__(self, xi, method=None):
                method = method or self.method
                if method not in ("linear", "nearest"):
                    raise ValueError("method " + method)
                out = []
                for p in xi:
                    inside = all(bool(S.and_(q >= g[0], q <= g[-1])) for q, g in zip(p, self.grid))
                    if not inside and self.bounds_error:
                        raise ValueError("One of the requested xi is out of bounds")
                    if not inside and self.fill_value is not None:
                        out.append(self.fill_value)
                        continue
                    out.append(outer.bilinear(self.grid, self.values, p, method))
                return S.array(out)

        class RectBivariateSpline:
            def __init__(self, x, y, z, bbox=(None,) * 4, kx=3, ky=3, s=0):
                x, y = np.asarray(x), np.asarray(y)
                for p, k in ((x, kx), (y, ky)):
                    for a, b in zip(p[:-1], p[1:]):
                        if not a < b:
                            raise ValueError("x, y must be strictly increasing")
                if len(x) <= kx or len(y) <= ky:
                    raise ValueError("too few points for the order")
                if (kx, ky, s) != (1, 1, 0):
                    raise NotImplementedError("spline order")
                self.args = (x, y), z.copy(), bbox

            def __call__(self, x, y, grid=True):
                xy, z, bbox = self.args
                if not grid:
                    x, y = np.asarray(x), np.asarray(y)
                    clip = lambda q, g: g[0] if q < g[0] else g[-1] if q > g[-1] else q
                    return S.array([outer.bilinear(xy, z, (clip(a, xy[0]), clip(b, xy[1])), "linear") for a, b in zip(x, y)])
                for v in (x, y):
                    for a, b in zip(v[:-1], v[1:]):
                        if grid and not a <= b:
                            raise ValueError("x, y must be sorted to increase")
                bbox = [g if b is None else b for b, g in zip(bbox, (xy[0][0], xy[0][-1], xy[1][0], xy[1][-1]))]
                clip = lambda q, lo, hi: lo if q < lo else hi if q > hi else q
                return S.array([[outer.bilinear(xy, z, (clip(a, bbox[0], bbox[1]), clip(b, bbox[2], bbox[3])), "linear")
                                 for b in y] for a in x])

        def interp1d(x, y, kind="linear", assume_sorted=False, fill_value=np.nan, **k):
            x, y = np.asarray(x), np.asarray(y)
            if kind not in ("linear", "nearest"):
                raise NotImplementedError("kind " + str(kind))
            for a, b in zip(x[:-1], x[1:]):
                if not a < b:
                    raise ValueError("expected sorted x")

            def f(q):
                out = []
                for v in np.atleast_1d(q):
                    out.append(outer.linear(x, y, v, kind))
                return S.array(out)

            return f

        self.RegularGridInterpolator = RegularGridInterpolator
        self.RectBivariateSpline = RectBivariateSpline
        self.interp1d = interp1d

    def linear(self, x, z, q, kind):
        if kind == "nearest":
            return z[_Grid1d.nearest(x, q)]
        i = _Grid1d.cell(x, q)
        f = (q - x[i]) / (x[i + 1] - x[i])
        return z[i] * (1 - f) + z[i + 1] * f

    def bilinear(self, grid, z, p, kind):
        if kind == "nearest":
            i, j = [_Grid1d.nearest(g, q) for g, q in zip(grid, p)]
            return z[i, j]
        i, j = [_Grid1d.cell(g, q) for g, q in zip(grid, p)]
        (x, y), (u, v) = grid, p
        f, g = (u - x[i]) / (x[i + 1] - x[i]), (v - y[j]) / (y[j + 1] - y[j])
        return (z[i, j] * (1 - f) * (1 - g) + z[i + 1, j] * f * (1 - g)
                + z[i, j + 1] * (1 - f) * g + z[i + 1, j + 1] * f * g)


def patch_interpolation(S):
    import glimpse.raster

    import glimpse.track.observer as observer

    if S.symbolic:
        # one module object, shared by all who import scipy
        S.patch(glimpse.raster.scipy, "interpolate", Interpolation(S))
        assert observer.scipy is glimpse.raster.scipy


# ---- random draws as inputs ----


class Draws:
    """Stands in for np.random: every draw is an input of the harness."""

    def __init__(self, S):
        self.S, self.u, self.z = S, 0, 0
        self.uniforms, self.normals = [], []

    def __getattr__(self, name):
        raise AttributeError("np.random." + name)

    def _shape(self, size):
        return () if size is None else (int(size),) if not hasattr(size, "__len__") else tuple(int(n) for n in size)

    def _many(self, size, one):
        shape = self._shape(size)
        if shape == ():
            return one()
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            o[i] = one()
        return self.S.array(o.tolist()) if o.size else np.zeros(shape)

    def _uniform(self):
        v = self.S.rand("u%d" % self.u)
        self.u += 1
        self.uniforms.append(v)
        return v

    def _normal(self):
        v = self.S.real("n%d" % self.z, -4, 4)
        self.z += 1
        self.normals.append(v)
        return v

    def random(self, size=None):
        return self._many(size, self._uniform)

    random_sample = sample = ranf = random

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def standard_normal(self, size=None):
        return self._many(size, self._normal)

    def randn(self, *shape):
        return self.standard_normal(shape or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def choice(self, a, size=None, replace=True, p=None):
        S = self.S
        a = np.arange(a) if np.ndim(a) == 0 else a
        if p is not None:
            S.check(S.abs(sum(p) - 1) <= 1e-6, "probabilities sum to one")
            for q in p:
                S.check(q >= 0, "probabilities are not negative")
        self.chosen = (a, size, replace, p)
        n = len(a)
        if not replace and p is None and size is not None:
            return self.permutation(a)[:size]

        def one():
            # by the inverse of the cumulative probability
            u = self._uniform()
            t = 0
            for i in range(n - 1):
                t = t + (1.0 / n if p is None else p[i])
                if u < t:
                    return a[i]
            return a[n - 1]

        return self._many(size, one)

    def _index(self, n):
        """Any integer below n."""
        self.orders = getattr(self, "orders", 0) + 1
        return self.S.concrete(self.S.int("order%d" % self.orders, 0, n - 1)) if n > 1 else 0

    def permutation(self, x):
        x = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        self.shuffle(x)
        return x

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self._index(i + 1)
            a, b = x[i], x[j]
            x[i], x[j] = b, a

    def default_rng(self, seed=None):
        return self


def patch_random(S, *modules):
    d = Draws(S)
    for m in modules:
        S.patch(m.np, "random", d)
    return d


def matched(S, wanted, draws, label):
    """Each of the expressions is that of its own draw: wanted[i](draw) == 0 for all inputs."""
    ok = [[S.same(f(z), 0.0) for z in draws] for f in wanted]
    owner = {}

    def assign(i, seen):
        for j in range(len(draws)):
            if ok[i][j] and j not in seen:
                seen.add(j)
                if j not in owner or assign(owner[j], seen):
                    owner[j] = i
                    return True
        return False

    if not all([assign(i, set()) for i in range(len(wanted))]):
        for a, b in zip(draws[:-1], draws[1:]):
            S.assume(b - a >= 2**-3)
        if draws:
            S.assume(draws[0] >= 2**-3)
        S.fail(label)
