"""Subsets of rasters: crops, indices, tiles, data bounds, windows of files."""
import copy
import datetime
import functools
import itertools
import os
import shutil
import tempfile

import numpy as np

from symx.runner import H

import glimpse

ASSUMPTIONS = ["crop limits within 2^-16 cells of a cell edge are decided only where they are exactly on it"]


def raster(S, nx, ny, flip, symbolic=True):
    o = [S.real("o%d" % k, -8, 8) if symbolic else (2.5, -3.0)[k] for k in range(2)]
    o = [v + b for v, b in zip(o, S.config.get("base", (0, 0)))]
    d = [c * (-1 if f else 1) for c, f in zip((1.5, 0.75), flip)]
    Z = S.reals("z", (ny, nx), -9, 9)
    r = glimpse.Raster(Z, x=S.array([o[0], o[0] + nx * d[0]]), y=S.array([o[1], o[1] + ny * d[1]]),
                       datetime=datetime.datetime(2020, 1, 2), crs=4326)
    return r, Z, o, d


def cells(S, r, Z, o, d, rows, cols, what):
    """r holds the cells (rows, cols) of the raster Z."""
    S.check(tuple(r.shape) == (len(rows), len(cols)), what + ": shape")
    if tuple(r.shape) != (len(rows), len(cols)):
        return
    S.eq(r.x, S.array([o[0] + (j + 0.5) * d[0] for j in cols]), what + ": x")
    S.eq(r.y, S.array([o[1] + (i + 0.5) * d[1] for i in rows]), what + ": y")
    S.eq(r.array, S.array([[Z[i, j] for j in cols] for i in rows]), what + ": values")
    S.check(r.datetime == datetime.datetime(2020, 1, 2), what + ": datetime")
    S.check(r.crs == 4326, what + ": coordinate reference system")


def crop(S):
    """Cropping keeps exactly the cells that the limits intersect."""
    nx, ny = S.config["size"]
    on = S.config.get("on", (False, False))  # exactly on cell edges?
    r, Z, o, d = raster(S, nx, ny, S.config["flip"], symbolic=not any(on))
    lim, want = [], []
    for k, n in enumerate((nx, ny)):
        a = S.concrete(S.int("a%d" % k, -1, n - 1))
        b = S.concrete(S.int("b%d" % k, a, n)) if not on[k] else S.concrete(S.int("b%d" % k, a + 1, n + 1))
        f, g = (0, 0) if on[k] else (S.real("f%d" % k, 2**-16, 1 - 2**-16), S.real("g%d" % k, 2**-16, 1 - 2**-16))
        if on[k]:
            S.assume(b > 0)
        else:
            S.assume(b >= 0)
            if a == b:
                S.assume(g >= f + 2**-16)
        p, q = o[k] + (a + f) * d[k], o[k] + (b + g) * d[k]
        lim.append((q, p) if S.config["swap"] else (p, q))
        want.append(list(range(max(a, 0), min(b - 1 if on[k] else b, n - 1) + 1)))
    if S.config.get("only") == "x":
        lim[1], want[1] = None, list(range(ny))
    cols, rows = want
    x, y, i, j = r.crop_extent(xlim=lim[0], ylim=lim[1])
    S.eq(x, S.array([o[0] + cols[0] * d[0], o[0] + (cols[-1] + 1) * d[0]]), "limits in x")
    S.eq(y, S.array([o[1] + rows[0] * d[1], o[1] + (rows[-1] + 1) * d[1]]), "limits in y")
    S.eq(i, S.array([rows[0], rows[-1]]), "rows")
    S.eq(j, S.array([cols[0], cols[-1]]), "columns")
    keep = Z.copy()
    r.crop(xlim=lim[0], ylim=lim[1])
    cells(S, r, keep, o, d, rows, cols, "cropped")
    S.eq(Z, keep, "original array unchanged")
    S.reach()


def outside(S):
    """A crop beyond the raster is refused without changing it."""
    nx, ny = 3, 2
    r, Z, o, d = raster(S, nx, ny, S.config["flip"])
    k = S.config["dim"]
    n = (nx, ny)[k]
    gap, width = S.real("gap", 2**-12, 4), S.real("width", 2**-12, 9)
    p = o[k] + (n + gap) * d[k] if S.config["after"] else o[k] - (gap + width) * d[k]
    lim = {"xy"[k] + "lim": (p, p + width * d[k])}
    S.raises(ValueError, lambda: r.crop(**lim), "refused")
    cells(S, r, Z, o, d, range(ny), range(nx), "after a refused crop")
    S.reach()


def zlim(S):
    """Values out of range become missing, others stay."""
    r, Z, o, d = raster(S, 2, 2, (False, True))
    a, b = S.real("a", -9, 9), S.real("b", -9, 9)
    for i, j in itertools.product(range(2), range(2)):
        for v in (a, b):
            S.assume(S.or_(Z[i, j] == v, Z[i, j] - v >= 2**-16, v - Z[i, j] >= 2**-16))
    keep = Z.copy()
    whole, r = r, r[0:2, 0:2]
    r.crop(zlim=(a, b))
    # (which may share memory)
    S.eq(whole.array, keep, "values of other rasters")
    S.eq(Z, keep, "values given")
    lo, hi = S.min(a, b), S.max(a, b)
    kept = []
    for i, j in itertools.product(range(2), range(2)):
        if S.and_(keep[i, j] >= lo, keep[i, j] <= hi):
            S.eq(r.array[i, j], keep[i, j], "values in range")
        else:
            S.check(S.isnan(r.array[i, j]), "values out of range")
            continue
        kept.append(keep[i, j])
    if kept:
        lo, hi = functools.reduce(S.min, kept), functools.reduce(S.max, kept)
        S.eq(r.zlim, S.array([lo, hi]), "limits of the values left")
        S.eq(r.box3d, S.array([o[0], o[1] + 2 * d[1], lo, o[0] + 2 * d[0], o[1], hi]), "box around the values left")
    S.reach()


def index(S):
    """Indexing selects the cells that numpy selects, at their coordinates."""
    nx, ny = S.config["size"]
    r, Z, o, d = raster(S, nx, ny, S.config["flip"])
    keep = Z.copy()
    idx = eval(S.config["idx"], {"np": type("I", (), {"s_": np.s_})})
    i, j = idx if isinstance(idx, tuple) else (idx, slice(None))
    rows, cols = np.arange(ny)[i], np.arange(nx)[j]
    q = r[idx]
    cells(S, q, keep, o, d, np.atleast_1d(rows).tolist(), np.atleast_1d(cols).tolist(), "subset")
    cells(S, r, keep, o, d, range(ny), range(nx), "original")
    S.reach()


def tiles(S):
    """Tiles without overlap partition the grid; overlap extends each towards the one before."""
    n = S.config["n"]
    dim = S.config["dim"]
    size = S.int("size", 1, n + 2)
    over = S.int("overlap", 0, n) if S.config["overlap"] else 0
    shape = (n, 2) if dim == 0 else (2, n)
    g = glimpse.Grid(shape)
    sz = S.array([size, 1] if dim == 0 else [1, size])
    base = g.tile_indices(sz)
    out = g.tile_indices(sz, overlap=S.array([over, 0] if dim == 0 else [0, over])) if S.config["overlap"] else base
    S.check(len(out) == len(base), "as many tiles with overlap")
    k = len(base) // 2
    S.check(len(base) == 2 * k, "as many tiles in each row")
    pos = [(t[1], t[0]) if dim == 0 else t for t in base]
    across, along = [p[1] for p in pos], [p[0] for p in pos]
    # the first row (dim 0) or column (dim 1) of tiles
    first = [t for t in range(2 * k) if S.and_(across[t].start == 0)]
    S.check(len(first) == k, "tiles of the first row")
    end = 0
    for t in first:
        S.eq(along[t].start, end, "tiles follow each other")
        S.check(along[t].stop > along[t].start, "tiles are not empty")
        end = along[t].stop
    S.eq(end, n, "tiles cover the grid")
    for t in range(2 * k):
        S.check(S.and_(across[t].stop == across[t].start + 1), "one cell across")
    if S.config["overlap"]:
        for t in range(2 * k):
            a, b = ((out[t][1], out[t][0]) if dim == 0 else out[t])
            S.eq(a.start, S.max(along[t].start - over, 0), "start extends by the overlap")
            S.eq(a.stop, along[t].stop, "stop")
            S.eq(b.start, across[t].start, "start across")
            S.eq(b.stop, across[t].stop, "stop across")
    S.reach()


def tiles_uniform(S):
    """All tiles but the last have the same size, within a factor of two of the target."""
    n = S.config["n"]
    size = S.int("size", 1, n)
    g = glimpse.Grid((n, 1))
    w = [t[1].stop - t[1].start for t in g.tile_indices(S.array([size, 1]))]
    for a, b in zip(w, w[1:]):
        S.check(b <= a, "only the last tile is smaller")
    for a in w[:-1]:
        S.eq(a, w[0], "tiles of the same size")
    S.check(S.and_(w[0] < 2 * size, 2 * w[0] > size), "near the target size")
    S.reach()


def data(S):
    """The smallest window that holds all values."""
    nx, ny = S.config["size"]
    r, Z, o, d = raster(S, nx, ny, S.config["flip"])
    miss = np.array([bool(S.concrete(m)) for m in S.bools("m", nx * ny)]).reshape(ny, nx)
    A = S.array([[np.nan if miss[i, j] else Z[i, j] for j in range(nx)] for i in range(ny)])
    r.array = A
    keep = A.copy()
    if miss.all():
        S.raises(ValueError, r.crop_to_data, "no values")
        cells(S, r, keep, o, d, range(ny), range(nx), "without values")
        S.reach()
        return
    rows, cols = np.where(~miss.all(axis=1))[0], np.where(~miss.all(axis=0))[0]
    rows, cols = list(range(rows[0], rows[-1] + 1)), list(range(cols[0], cols[-1] + 1))
    i, j = r.data_extent()
    S.check((i.start, i.stop, j.start, j.stop) == (rows[0], rows[-1] + 1, cols[0], cols[-1] + 1), "data extent")
    r.crop_to_data()
    cells(S, r, keep, o, d, rows, cols, "cropped to data")
    S.eq(r.xlim, S.array([o[0] + cols[0] * d[0], o[0] + (cols[-1] + 1) * d[0]]), "limits in x")
    S.eq(r.ylim, S.array([o[1] + rows[0] * d[1], o[1] + (rows[-1] + 1) * d[1]]), "limits in y")
    S.reach()


class File:
    """A stand-in for a raster file as read with GDAL (nearest neighbor, as is its default)."""

    def __init__(self, S, Z, transform, nodata, crs=""):
        self.S, self.transform, self.nodata, self.crs = S, transform, nodata, crs
        self.bands = [Z] if Z.ndim == 2 else [Z[:, :, b] for b in range(Z.shape[2])]
        self.Z = self.bands[0]
        self.RasterYSize, self.RasterXSize = self.Z.shape
        self.DataType = 7 if Z.dtype.kind == "f" else 5

    def GetGeoTransform(self):
        return self.transform

    def GetProjection(self):
        return self.crs

    def GetRasterBand(self, band):
        assert 1 <= band <= len(self.bands), "band"
        one = copy.copy(self)
        one.Z = self.bands[band - 1]
        return one

    def GetNoDataValue(self):
        return self.nodata

    def ReadAsArray(self, xoff, yoff, win_xsize, win_ysize, buf_xsize, buf_ysize):
        for v in (xoff, yoff, win_xsize, win_ysize, buf_xsize, buf_ysize):
            assert type(v) is int, "GDAL needs Python integers"
        assert xoff >= 0 and yoff >= 0 and win_xsize > 0 and win_ysize > 0, "window"
        assert xoff + win_xsize <= self.RasterXSize and yoff + win_ysize <= self.RasterYSize, "window"
        i = [yoff + int((k + 0.5) * win_ysize / buf_ysize) for k in range(buf_ysize)]
        j = [xoff + int((k + 0.5) * win_xsize / buf_xsize) for k in range(buf_xsize)]
        return self.S.array([[self.Z[a, b] for b in j] for a in i])


class scratch:
    """The file: in memory for the solver, on disk (with GDAL) when replayed."""

    def __init__(self, S, Z, transform, nodata=None):
        self.S, self.args = S, (Z, transform, nodata)

    def __enter__(self):
        Z, transform, nodata = self.args
        S = self.S
        if S.symbolic:
            f = File(S, Z, transform, nodata)
            self.gone = False

            def opened(path, mode=None):
                if self.gone:
                    raise RuntimeError("file removed")
                return f

            S.patch(glimpse.raster.osgeo.gdal, "Open", opened)
            S.patch(glimpse.raster, "sharedmem", type("M", (), dict(copy=staticmethod(lambda a: a.copy()))))
            return "stand-in.tif"
        self.dir = tempfile.mkdtemp()
        path = os.path.join(self.dir, "f.tif")
        glimpse.helpers.write_raster(Z, path, transform=[float(v) for v in transform], nan=nodata)
        return path

    def __exit__(self, *e):
        self.gone = True
        if not self.S.symbolic:
            shutil.rmtree(self.dir)


def window(S):
    """A window read from a file holds the file's values at their coordinates."""
    nx, ny = S.config["size"]
    flip = S.config["flip"]
    o = (2.5, -3.0)
    d = [c * (-1 if f else 1) for c, f in zip((1.5, 0.75), flip)]
    ints = S.config.get("ints", False)
    Z = S.ints("z", (ny, nx), -3, 3) if ints else S.reals("z", (ny, nx), -9, 9)
    if not S.symbolic and ints:
        Z = Z.astype("int32")
    nodata, nan = S.config.get("nodata"), S.config.get("nan")
    v = nan if nan is not None else nodata if not ints else None
    missing = np.zeros((ny, nx), dtype=bool)
    if v is not None:
        for i, j in itertools.product(range(ny), range(nx)):
            S.assume(S.or_(Z[i, j] == v, Z[i, j] - v >= 2**-16, v - Z[i, j] >= 2**-16))
            missing[i, j] = bool(Z[i, j] == v)
    want = S.array([[np.nan if missing[i, j] else Z[i, j] for j in range(nx)] for i in range(ny)])
    if ints and v is None:
        want = Z.copy()
    cols, rows = list(range(nx)), list(range(ny))
    kw = {}
    if S.config.get("window"):
        a, b = S.concrete(S.int("a", 0, nx - 1)), S.concrete(S.int("b", 0, ny - 1))
        f, g = S.real("f", 2**-6, 1 - 2**-6), S.real("g", 2**-6, 1 - 2**-6)
        kw = dict(xlim=(o[0] + (a + f) * d[0], o[0] + (nx + g) * d[0]), ylim=(o[1] - g * d[1], o[1] + (b + f) * d[1]))
        cols, rows = list(range(a, nx)), list(range(b + 1))
    q = S.config.get("d")
    if q:
        kw["d"] = q * 1.5
    t = datetime.datetime(2020, 1, 2)
    with scratch(S, Z, (o[0], d[0], 0, o[1], 0, d[1]), nodata) as path:
        r = glimpse.Raster.open(path, datetime=t, nan=nan, **kw)
        if q:
            S.eq(r.size, S.array([-(-len(cols) // q), -(-len(rows) // (2 * q))]), "size at a coarser resolution")
            S.eq(r.xlim, S.array([o[0] + cols[0] * d[0], o[0] + (cols[-1] + 1) * d[0]]), "limits at a coarser resolution")
            full = glimpse.Raster.open(path, datetime=t, nan=nan, **kw).read()
            S.check(full.shape == tuple(r.shape), "shape read")
            want = full
            n, m = r.size
        else:
            full = S.array([[want[i, j] for j in cols] for i in rows])
            n, m = len(cols), len(rows)
            S.eq(r.size, S.array([n, m]), "size before reading")
        n, m = int(n), int(m)
        if S.config.get("uneven"):
            S.check(tuple(r.array.shape) == (m, n), "shape of the array")
            S.reach()
            return
        # part of the window, directly from the file
        box = [S.concrete(S.int("l", 0, n - 1)), S.concrete(S.int("t", 0, m - 1))]
        box += [S.concrete(S.int("r", box[0] + 1, n)), S.concrete(S.int("u", box[1] + 1, m))]
        part = S.array([[full[i, j] for j in range(box[0], box[2])] for i in range(box[1], box[3])])
        S.eq(r.read(box=box, cache=False), part, "box read from the file")
        S.raises(ValueError, lambda: r.read(box=(0, 0, n + 1, m)), "box out of bounds")
        S.raises(ValueError, lambda: r.read(box=(0.0, 0.0, n * 1.0, m * 1.0)), "box not of integers")
        if S.config.get("cache", True):
            S.eq(r.read(box=box, cache=True), part, "box read and cached")
        else:
            S.eq(r.read(cache=False), full, "read from the file")
        S.eq(r.array, full, "array")
        S.eq(r.read(box=box), part, "box of the array")
        S.eq(r.read(box=box, cache=False), part, "box of the array, again")
        if not q:
            S.eq(r.x, S.array([o[0] + (j + 0.5) * d[0] for j in cols]), "x")
            S.eq(r.y, S.array([o[1] + (i + 0.5) * d[1] for i in rows]), "y")
        S.check(r.datetime == t, "datetime")
        g = glimpse.Grid.read(path, **kw)
        S.eq(g.size, S.array([n, m]), "grid of the file: size")
        S.eq(g.xlim, r.xlim, "grid of the file: limits in x")
        S.eq(g.ylim, r.ylim, "grid of the file: limits in y")
    S.reach()


def kept(S):
    """What was read and cached needs no file anymore; what was not cached does."""
    Z = S.reals("z", (2, 2), -9, 9)
    box = (1, 0, 2, 2)
    with scratch(S, Z, (2.5, 1.5, 0, -3.0, 0, -0.75)) as path:
        r, q = glimpse.Raster.open(path), glimpse.Raster.open(path)
        got = r.read(box=box) if S.config["box"] else r.read()
        S.eq(got, Z[:, 1:] if S.config["box"] else Z, "read and cached")
        S.eq(q.read(box=box, cache=False), Z[:, 1:], "read without caching")
    S.eq(r.read(), Z, "read from the cache")
    S.eq(r.read(box=box, cache=False), Z[:, 1:], "box of the cache")
    S.eq(r.array, Z, "array from the cache")
    S.raises((RuntimeError, AttributeError), lambda: q.read(), "not cached")
    r.array[0, 0] = 20.0
    S.eq(r.read()[0, 0], 20.0, "changes of the array persist")
    S.reach()


def bands(S):
    """The band asked for, also when read again and in windows; the first by default."""
    Z = S.reals("z", (2, 3, 3), -9, 9)
    k = S.concrete(S.int("k", 1, 3))
    box = (1, 0, 3, 1)
    with scratch(S, Z, (2.5, 1.5, 0, -3.0, 0, -0.75)) as path:
        S.eq(glimpse.Raster.open(path).read(), Z[:, :, 0], "first band by default")
        r = glimpse.Raster.open(path, band=k)
        S.eq(r.read(box=box, cache=False), Z[:1, 1:, k - 1], "box of the band")
        S.eq(r.array, Z[:, :, k - 1], "band")
        r.array = None
        S.eq(r.read(box=box), Z[:1, 1:, k - 1], "box of the band, read again")
        q = glimpse.Raster.open(path, band=k, xlim=(4.5, 9.0))
        S.eq(q.array, Z[:, 1:, k - 1], "window of the band")
    S.reach()


FLIPS = [(False, True), (True, False)]
INDICES = ["np.s_[1]", "np.s_[-1]", "np.s_[0, 2]", "np.s_[-1, -2]", "np.s_[:, 1:]", "np.s_[1:3, 1:3]", "np.s_[:2, 1]", "np.s_[::2, ::2]", "np.s_[::3, 1::2]",
           "np.s_[-2:, :-1]", "np.s_[::-1, ::-1]", "np.s_[1::-1, 2:0:-1]", "np.s_[::-2, :]"]
FAR = (524288.0, 4194304.0)
HARNESSES = [
    H("crop", crop, [dict(size=(3, 2), flip=f, swap=s) for f in FLIPS for s in (False, True)] + [dict(size=(3, 3), flip=f, swap=False, on=o) for f in FLIPS for o in ((True, True), (True, False))]
      + [dict(size=(4, 2), flip=(True, True), swap=False, only="x"), dict(size=(1, 2), flip=(False, True), swap=False)]
      + [dict(size=(3, 2), flip=f, swap=False, on=(a, a), base=FAR) for f in FLIPS for a in (False, True)],
      thorough=[dict(size=(5, 4), flip=f, swap=False) for f in FLIPS], bounds="rasters up to 3x3 (thorough: 5x4) in either direction, any crop limits"),
    H("outside", outside, [dict(flip=f, dim=k, after=a) for f in FLIPS for k in (0, 1) for a in (False, True)], bounds="3x2 rasters, any limits beyond them"),
    H("zlim", zlim, bounds="2x2 raster, any values and limits"),
    H("index", index, [dict(size=s, flip=FLIPS[k % 2], idx=i) for s in ((4, 3), (5, 4)) for k, i in enumerate(INDICES)], bounds="4x3 and 5x4 rasters at any position, 13 kinds of index"),
    H("tiles", tiles, [dict(n=n, dim=k, overlap=v) for n in (1, 4, 7) for k in (0, 1) for v in (False, True)], thorough=[dict(n=n, dim=k, overlap=True) for n in (10, 13) for k in (0, 1)], bounds="up to 7 (thorough: 13) cells in one dimension, any tile size and overlap"),
    H("tiles_uniform", tiles_uniform, [dict(n=n) for n in (5, 8)], bounds="5 and 8 cells, any tile size"),
    H("data", data, [dict(size=(3, 2), flip=FLIPS[0]), dict(size=(2, 3), flip=FLIPS[1]), dict(size=(1, 3), flip=FLIPS[0])], bounds="rasters of 3-6 cells, any set of missing cells"),
    H("window", window, [dict(size=(3, 2), flip=f, window=w) for f in FLIPS for w in (False, True)]
      + [dict(size=(2, 2), flip=FLIPS[0], nodata=v, cache=False) for v in (-9.0, 0.0)] + [dict(size=(2, 2), flip=FLIPS[0], nan=1, ints=i) for i in (False, True)]
      + [dict(size=(2, 1), flip=FLIPS[0], nodata=0, ints=True), dict(size=(4, 4), flip=FLIPS[1], d=2), dict(size=(4, 4), flip=FLIPS[0], d=1)]
      + [dict(size=(3, 3), flip=f, d=q, uneven=True) for f in FLIPS for q in (1, 2)],
      bounds="files up to 4x4, any window and box; GDAL as a nearest-neighbor window reader"),
    H("bands", bands, bounds="a 3x2 file of 3 bands, any values"),
    H("kept", kept, [dict(box=b) for b in (False, True)], bounds="2x2 file, any values"),
]
