"""Images simulated from digital elevation models."""
import functools
import itertools

import numpy as np
import scipy.ndimage

from symx.runner import H

import glimpse
from glimpse import Raster, helpers
from props.H06 import _linear

ASSUMPTIONS = ["serial execution (the parallel backend runs the same function on each tile)",
               "scipy.ndimage.zoom is its matrix of impulse responses (replays use the real one)"]
ZOOM = _linear(scipy.ndimage.zoom)


def quiet(S):
    """No progress bar."""
    class Bar:
        def next(self):
            pass

        finish = next

    S.patch(helpers, "_progress_bar", lambda max: Bar())
    if S.symbolic:
        zoom = ZOOM(S)

        from symx import arr

        real = scipy.ndimage.zoom

        def either(x, **k):
            # masks do not depend on inputs
            return zoom(x, **k) if arr.has_sym(x) else real(np.array(x.tolist()), **k)

        N = type("N", (), dict(zoom=staticmethod(either)))
        S.patch(glimpse.raster.scipy, "ndimage", N)


def project(S):
    """Each pixel is the mean value and depth of the cells seen in it, whatever the tiles."""
    quiet(S)
    ny, nx = S.config["shape"]
    W, Hh = S.config["imgsz"]
    bands = S.config.get("bands", 1)
    f, h = 2.0, 10.0
    cx, cy = S.config.get("at", (0.0, 0.0))
    cam = glimpse.Camera(imgsz=(W, Hh), f=f, xyz=(cx, cy, h), viewdir=(0, -90, 0))
    # rows from the north or south, columns from the west or east
    dx, dy = S.config.get("d", (5.5, -5.5))
    x = dx * (np.arange(nx) - (nx - 1) / 2)
    y = dy * (np.arange(ny) - (ny - 1) / 2)
    lim = (x[0] - dx / 2, x[-1] + dx / 2), (y[0] - dy / 2, y[-1] + dy / 2)
    # elevations free up to above the camera, or fixed
    free = S.config.get("free", [])
    Z = S.array((np.arange(ny * nx).reshape(ny, nx) % 3 * 0.5).tolist())
    for k in free:
        Z[k] = S.real("z%d_%d" % k, -20, 14)
    holes = [k for k in S.config.get("holes", [])]
    for k in holes:
        Z[k] = np.nan
    V = S.reals("v", (ny, nx, bands), -9, 9)
    mask = None
    used = np.ones((ny, nx), dtype=bool)
    for k in holes:
        used[k] = False
    if "masked" in S.config:
        # (which may or may not select missing cells)
        mask = np.ones(used.shape, dtype=bool) if S.config.get("all") else used.copy()
        for k in S.config["masked"]:
            mask[k] = used[k] = False
    dem = Raster(Z, x=lim[0], y=lim[1])
    kw = {}
    if "tile" in S.config:
        kw = dict(tile_size=S.config["tile"], tile_overlap=S.config.get("overlap", (1, 1)))
    if mask is not None:
        kw["mask"] = mask
    values = V[:, :, 0] if bands == 1 and S.config.get("flat", True) else V
    if S.config.get("values", True) is False:
        values, bands = None, 0
    depth = bool(S.config.get("depth"))
    before = [Z.copy(), V.copy()]
    # where the cells are seen
    seen = {}
    tiles = dem.tile_indices(size=kw["tile_size"], overlap=kw["tile_overlap"]) if kw.get("tile_size") else [(slice(None), slice(None))]
    pix = {}
    for i, j in itertools.product(range(ny), range(nx)):
        if not used[i, j]:
            continue
        z = Z[i, j]
        ahead = h - z
        S.assume(S.abs(ahead) >= 2**-6)
        if not ahead > 0:
            continue
        u = W / 2 + f * (x[j] - cx) / ahead
        v = Hh / 2 - f * (y[i] - cy) / ahead
        for q in (u, v):
            for e in range(max(W, Hh) + 1):
                S.assume(S.abs(q - e) >= 2**-12)
        if u > 0 and u < W and v > 0 and v < Hh:
            c, r = int(S.concrete(S.floori(u))), int(S.concrete(S.floori(v)))
            pix.setdefault((r, c), []).append((i, j))
    # cells shared by tiles may count more than once
    times = np.zeros((ny, nx), dtype=int)
    for t in tiles:
        times[t] += 1
    got = cam.project_dem(dem, values=values, return_depth=depth, **kw)
    S.check(tuple(got.shape) == (Hh, W, bands + depth), "shape of image")
    for r, c in itertools.product(range(Hh), range(W)):
        cells = pix.get((r, c), [])
        for b in range(bands + depth):
            if not cells:
                S.check(S.isnan(got[r, c, b]), "pixels without cells are missing")
                continue
            have = [V[i, j, b] if b < bands else h - Z[i, j] for i, j in cells]
            want = sum(have)
            if len({times[k] for k in cells}) > 1:
                lo, hi = functools.reduce(S.min, have), functools.reduce(S.max, have)
                S.check(S.and_(got[r, c, b] >= lo, got[r, c, b] <= hi), "average of the cells in the pixel")
                continue
            S.eq(got[r, c, b] * len(cells), want, "mean of the cells in the pixel" if b < bands else "mean depth of the cells in the pixel")
    S.eq(dem.array, before[0], "elevations unchanged")
    S.eq(V, before[1], "values unchanged")
    S.reach()


def scaled(S):
    """Scaling tiles is as projecting the scaled elevations and values."""
    quiet(S)
    k = S.config["scale"]
    W, Hh = 4, 4
    cam = glimpse.Camera(imgsz=(W, Hh), f=2, xyz=(0, 0, 10), viewdir=(0, -90, 0))
    ny, nx = S.config["shape"]
    Z = S.array((np.arange(ny * nx).reshape(ny, nx) % 3 * 0.5).tolist())
    V = S.reals("v", (ny, nx, 2), -9, 9)
    lim = (-nx * 2.0, nx * 2.0), (ny * 2.0, -ny * 2.0)
    dem = Raster(Z, x=lim[0], y=lim[1])
    mask = np.ones((ny, nx), dtype=bool)
    for q in S.config.get("masked", []):
        mask[q] = False
    given = S.config.get("values", True)
    got = cam.project_dem(dem, values=V if given else None, mask=mask, return_depth=True, scale_limits=(k, k))

    def resized(A, order=1):
        small = Raster(A.copy(), x=lim[0], y=lim[1])
        small.resize(k, order=order)
        return small

    W2 = np.dstack([resized(V[:, :, b]).array for b in range(2)])
    if not given:
        V, W2 = None, None
    want = cam.project_dem(resized(Z), values=W2, mask=resized(mask.astype(float), 0).array > 0.5, return_depth=True)
    S.check(tuple(got.shape) == tuple(want.shape), "same layers")
    for idx in np.ndindex(want.shape):
        a, b = got[idx], want[idx]
        S.check(S.isnan(a) == S.isnan(b), "same pixels")
        if not S.isnan(b):
            S.eq(a, b, "as projecting the scaled elevations")
    S.eq(dem.array, Z, "elevations unchanged")
    S.reach()


def automatic(S):
    """The scale of tiles is cells per pixel at their distance, within the limits."""
    quiet(S)
    f, d = S.config.get("f", (2.0, 2.0)), S.config.get("d", (1.0, -1.0))
    cam = glimpse.Camera(imgsz=(4, 4), f=f, xyz=(0, 0, 10), viewdir=(0, -90, 0))
    Z = S.array(np.zeros((2, 2)).tolist())
    z = S.real("z", -30, 9)
    Z[:] = z
    mask = None
    if S.config.get("cells"):
        # the mean of the cells which are neither masked nor missing
        mask = np.array([[True, False], [True, True]])
        w = S.real("w", -1, 1)
        Z[0, 0], Z[0, 1], Z[1, 0], Z[1, 1] = z + w, S.real("other", -30, 9), np.nan, z - w
    dem = Raster(Z, x=(-d[0], d[0]), y=(-d[1], d[1]))
    if S.config:
        scale, lo, hi = 1.5, 0.125, 8.0
    else:
        scale = S.real("scale", 0.5, 4)
        lo, hi = S.real("lo", 0.25, 2), S.real("hi", 0.25, 2)
    seen = []

    class Stop(Exception):
        pass

    def resize(self, k, **kw):
        seen.append(k)
        raise Stop

    S.patch(Raster, "resize", resize)
    want = scale * ((abs(d[0]) + abs(d[1])) / 2) / ((10 - z) / ((f[0] + f[1]) / 2))
    a, b = S.min(lo, hi), S.max(lo, hi)
    want = S.max(S.min(want, b), a)
    S.assume(S.abs(want - 1) >= 2**-12)
    try:
        cam.project_dem(dem, return_depth=True, mask=mask, scale=scale, scale_limits=(lo, hi))
    except Stop:
        pass
    S.check(len(seen) == 1, "scaled unless one to one")
    S.eq(S.array([seen[0]]).reshape(-1), [want], "cells per pixel at the mean distance, within limits")
    S.reach()


def refused(S):
    """Arrays whose shape does not match the DEM are refused."""
    quiet(S)
    cam = glimpse.Camera(imgsz=(3, 3), f=3, xyz=(0, 0, 3), viewdir=(0, -90, 0))
    dem = Raster(np.zeros((3, 3)), x=(-1, 0, 1), y=(1, 0, -1))
    r, c = S.concrete(S.int("r", 1, 4)), S.concrete(S.int("c", 1, 4))
    if (r, c) != (3, 3):
        S.raises(ValueError, lambda: cam.project_dem(dem, values=np.zeros((r, c))), "values of another shape")
        S.raises(ValueError, lambda: cam.project_dem(dem, values=np.zeros((3, 3)), mask=np.ones((r, c), dtype=bool)), "mask of another shape")
    S.raises(ValueError, lambda: cam.project_dem(dem), "neither values nor depth")
    S.reach()


HARNESSES = [
    H("project", project, [
        dict(shape=(2, 2), imgsz=(3, 2), free=[(0, 0)], d=(2.0, -2.0), depth=True),
        dict(shape=(2, 3), imgsz=(3, 3), free=[(0, 1)], bands=2, depth=True, tile=(1, 2), at=(0.25, 1.0)),
        dict(shape=(3, 2), imgsz=(3, 3), free=[(1, 0)], tile=(2, 1), overlap=(0, 0), holes=[(0, 1)]),
        dict(shape=(2, 2), imgsz=(2, 3), free=[(1, 1)], masked=[(0, 0)], holes=[(0, 1)], d=(-5.5, 5.5), depth=True, values=False),
        dict(shape=(3, 3), imgsz=(4, 4), free=[(0, 2)], tile=(2, 2), d=(-5.5, -5.5), at=(0.75, -1.25), depth=True, flat=False),
        dict(shape=(3, 3), imgsz=(4, 4), free=[(2, 2)], tile=(3, 1), overlap=(1, 2), at=(-0.75, -1.25), d=(5.5, 5.5), bands=2),
        dict(shape=(1, 2), imgsz=(2, 2), free=[(0, 0), (0, 1)], tile=(1, 1), overlap=(0, 0)),
        dict(shape=(2, 3), imgsz=(3, 2), free=[(0, 1)], tile=(1, 1), overlap=(0, 0), d=(2.0, -2.0), bands=2, depth=True),
        dict(shape=(2, 3), imgsz=(2, 2), free=[(1, 2)], tile=(2, 1), at=(0.25, 0.5), d=(3.0, -3.0), depth=True),
        dict(shape=(2, 2), imgsz=(3, 2), free=[(0, 1)], d=(2.0, -2.0), depth=True),
        dict(shape=(2, 2), imgsz=(2, 3), free=[(1, 0)], d=(2.0, -2.0), bands=2),
        dict(shape=(3, 3), imgsz=(2, 2), free=[(1, 2)], tile=(3, 2), overlap=(0, 0), at=(-4.0, -3.0), d=(1.0, -1.0), depth=True),
        dict(shape=(2, 3), imgsz=(3, 3), free=[(1, 1)], masked=[(0, 0)], holes=[(0, 1)], d=(2.0, -2.0), all=True),
        dict(shape=(3, 2), imgsz=(3, 3), free=[(2, 0)], masked=[(1, 1)], holes=[(0, 0)], bands=2, depth=True, tile=(2, 2), all=True),
    ], bounds="2x2 to 3x3 elevations (1-2 free, also above the camera), images of up to 4x4 pixels, several tilings"),
    H("scaled", scaled, [dict(shape=(4, 4), scale=0.5, masked=[(0, 0), (3, 1)]), dict(shape=(2, 2), scale=2), dict(shape=(4, 2), scale=1.5, masked=[(1, 0)]), dict(shape=(4, 2), scale=2, masked=[(1, 0)], values=False)], bounds="2x2 to 4x4 elevations, 3 scales"),
    H("automatic", automatic, [dict(), dict(f=(2.0, 3.0), d=(1.0, -1.5)), dict(d=(-1.0, 0.5), f=(3.0, 2.0)), dict(cells=True), dict(cells=True, d=(0.5, 1.0))], bounds="any distance, scale and limits"),
    H("refused", refused, bounds="arrays of up to 4x4"),
]
