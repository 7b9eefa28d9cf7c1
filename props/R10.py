"""Rasters written to files with GDAL and read back."""
import itertools
import datetime
import os
import shutil
import tempfile

import numpy as np
import osgeo.gdal
import osgeo.osr

from symx.runner import H

import glimpse
import glimpse.image
from glimpse import helpers
from glimpse.raster import Grid
from props.R09 import Real

ASSUMPTIONS = [
    "GDAL's drivers store what they are given, which Open returns (numbers of the type of the band, the transform, the projection, the no-data value)",
    "values are 2^-6 or more from a finite value that stands for NaN",
]
M = 2**-6
GEOGCS = osgeo.osr.SpatialReference()
GEOGCS.ImportFromEPSG(32606)
CRS = dict(epsg=4326, proj="+proj=utm +zone=33 +datum=WGS84", wkt=GEOGCS.ExportToWkt())


class Band:
    def __init__(self, ds, k):
        self.ds, self.k = ds, k
        self.DataType = ds.kind

    def SetNoDataValue(self, v):
        assert isinstance(v, (int, float, np.number)), "a number"
        self.ds.nodata = float(v)

    def GetNoDataValue(self):
        return self.ds.nodata

    def WriteArray(self, a, xoff=0, yoff=0):
        assert a.ndim == 2
        assert a.shape[0] + yoff <= self.ds.RasterYSize and a.shape[1] + xoff <= self.ds.RasterXSize, "out of bounds"
        for i, j in itertools.product(range(a.shape[0]), range(a.shape[1])):
            self.ds.bands[self.k][yoff + i][xoff + j] = a[i, j]

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, buf_xsize=None, buf_ysize=None):
        assert buf_xsize in (None, win_xsize) and buf_ysize in (None, win_ysize), "resampled"
        dtype = {1: "uint8", 4: "int32", 5: "int32", 6: "float32", 7: "float64"}[self.DataType]
        rows = self.ds.bands[self.k][yoff:yoff + (win_ysize or self.ds.RasterYSize)]
        return self.ds.S.array([r[xoff:xoff + (win_xsize or self.ds.RasterXSize)] for r in rows], dtype=dtype)


class Dataset:
    def __init__(self, S, xsize, ysize, bands, kind):
        for v in (xsize, ysize, bands):
            assert type(v) is int and v > 0
        self.S, self.RasterXSize, self.RasterYSize, self.RasterCount, self.kind = S, xsize, ysize, bands, kind
        self.transform, self.crs, self.nodata = (0.0, 1.0, 0.0, 0.0, 0.0, 1.0), "", None
        self.bands = [[[0] * xsize for _ in range(ysize)] for _ in range(bands)]

    def SetGeoTransform(self, t):
        assert len(t) == 6
        self.transform = tuple(t)

    def GetGeoTransform(self):
        return self.transform

    def SetProjection(self, wkt):
        assert type(wkt) is str
        self.crs = wkt

    def GetProjection(self):
        return self.crs

    def GetRasterBand(self, i):
        assert 1 <= i <= self.RasterCount, "no such band"
        return Band(self, i - 1)

    def FlushCache(self):
        pass


class Driver(Real):
    def __init__(self, S, files, real):
        super().__init__(real)
        self.S, self.files = S, files

    def Create(self, utf8_path, xsize, ysize, bands=1, eType=1, options=()):
        assert self.GetMetadata().get("DCAP_CREATE"), "cannot create"
        ds = Dataset(self.S, xsize, ysize, bands, eType)
        if self.ShortName != "MEM":
            self.files[utf8_path] = self.ShortName, ds
        return ds

    def CreateCopy(self, path, src, strict=1, options=()):
        assert self.GetMetadata().get("DCAP_CREATECOPY"), "cannot copy"
        ds = Dataset(self.S, src.RasterXSize, src.RasterYSize, src.RasterCount, src.kind)
        ds.transform, ds.crs, ds.nodata = src.transform, src.crs, src.nodata
        ds.bands = [[list(r) for r in b] for b in src.bands]
        self.files[path] = self.ShortName, ds
        return ds


class Osgeo(Real):
    def __init__(self, S):
        super().__init__(osgeo)
        files = self.files = {}

        class gdal(Real):
            @staticmethod
            def GetDriverByName(name):
                d = osgeo.gdal.GetDriverByName(name)
                return d if d is None else Driver(S, files, d)

            @staticmethod
            def GetDriver(i):
                d = osgeo.gdal.GetDriver(i)
                return d if d is None else Driver(S, files, d)

            @staticmethod
            def Open(path, mode=0):
                return files[path][1] if path in files else None

        self.gdal = gdal(osgeo.gdal)


class disk:
    """Where files are written: in memory for the solver, in a scratch folder when replayed."""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        S = self.S
        if S.symbolic:
            self.dir = "nowhere"
            self.osgeo = Osgeo(S)
            S.patch(helpers, "osgeo", self.osgeo)
            S.patch(glimpse.raster, "osgeo", self.osgeo)
            S.patch(glimpse.image, "osgeo", self.osgeo)
            S.patch(glimpse.image, "sharedmem", type("M", (), dict(copy=staticmethod(lambda a: a.copy()))))
            S.patch(glimpse.raster, "sharedmem", type("M", (), dict(copy=staticmethod(lambda a: a.copy()))))
        else:
            self.dir = tempfile.mkdtemp()
        return self

    def __exit__(self, *e):
        if not self.S.symbolic:
            shutil.rmtree(self.dir)

    def path(self, name):
        return os.path.join(self.dir, name)

    def driver(self, path):
        if self.S.symbolic:
            return self.osgeo.files[path][0] if path in self.osgeo.files else None
        ds = osgeo.gdal.Open(path) if os.path.exists(path) else None
        return ds and ds.GetDriver().ShortName


def values(S, name, shape, kind):
    """Numbers of a type, as an array of that type."""
    if kind == "float64":
        return S.reals(name, shape, -99, 99)
    lo, hi = dict(uint8=(0, 255), int32=(-(2**31), 2**31 - 1))[kind]
    a = S.ints(name, shape, lo, hi)
    return S.array([a[k] for k in np.ndindex(*shape)], dtype=kind).reshape(shape)


def absent(S, Z, n, name="m"):
    shape = Z.shape
    gone = set()
    for k in range(n):
        m = S.concrete(S.int("%s%d" % (name, k), 0, int(np.prod(shape)) - 1))
        i = tuple(int(v) for v in np.unravel_index(m, shape))
        gone.add(i)
        Z[i] = np.nan
    return gone


def crs_same(S, got, want, label):
    if want is None:
        S.check(got is None, label)
        return
    a, b = osgeo.osr.SpatialReference(), osgeo.osr.SpatialReference()
    S.check(isinstance(got, str) and a.ImportFromWkt(got) == 0, label)
    if isinstance(want, int):
        b.ImportFromEPSG(want)
    elif want.startswith("+"):
        b.ImportFromProj4(want)
    else:
        b.ImportFromWkt(want)
    S.check(bool(a.IsSame(b)), label)


def write(S):
    """A raster written is read back: values, missing values, limits, size, system."""
    nx, ny = S.config["size"]
    flip = S.config.get("flip", (False, True))
    kind = S.config.get("kind", "float64")
    nan, n = S.config.get("nan"), S.config.get("missing", 0)
    name = S.config.get("name", "f.tif")
    crs = CRS.get(S.config.get("crs"))
    if S.config.get("free"):
        o = [S.real("o%d" % k, -8, 8) for k in range(2)]
    else:
        o = (2.5, -3.0)
    d = [c * (-1 if f else 1) for c, f in zip((1.5, 0.75), flip)]
    Z = values(S, "z", (ny, nx), kind)
    gone = absent(S, Z, n)
    if nan is not None and kind == "float64":
        for i in np.ndindex(ny, nx):
            if i not in gone:
                S.assume(S.abs(Z[i] - nan) >= M)
    keep = Z.copy()
    x, y = [o[0], o[0] + nx * d[0]], [o[1], o[1] + ny * d[1]]
    r = glimpse.Raster(Z, x=S.array(x), y=S.array(y), crs=crs)
    kw = {}
    if nan is not None:
        kw["nan"] = nan
    if S.config.get("driver"):
        kw["driver"] = S.config["driver"]
    with disk(S) as files:
        path = files.path(name)
        if S.config.get("over"):
            glimpse.Raster(S.array([[1.0, 2.0, 3.0, 4.0]]), x=(0, 4), y=(0, 1), crs=32601).write(path, nan=-1)
        r.write(path, **kw)
        S.check(files.driver(path) == S.config.get("expect", S.config.get("driver") or "GTiff"), "format")
        S.eq(Z, keep, "the raster is unchanged")
        q = glimpse.Raster.open(path)
        S.check(tuple(int(v) for v in q.size) == (nx, ny), "size")
        S.eq(q.xlim, S.array(x), "limits in x")
        S.eq(q.ylim, S.array(y), "limits in y")
        crs_same(S, q.crs, crs, "coordinate reference system")
        S.check(q.array.shape == (ny, nx), "shape")
        for i in np.ndindex(ny, nx):
            if i in gone:
                S.check(S.isnan(q.array[i]), "missing values")
            else:
                S.eq(q.array[i], keep[i], "values")
        S.check(np.dtype(q.array.dtype).kind == np.dtype(kind).kind, "type of numbers")
        g = Grid.read(path)
        S.check(tuple(int(v) for v in g.size) == (nx, ny), "size of the grid")
        S.eq(S.array([g.xlim, g.ylim]), S.array([x, y]), "limits of the grid")
        crs_same(S, g.crs, crs, "coordinate reference system of the grid")
    S.reach()


def bands(S):
    """Each layer of an array is a band of the file."""
    ny, nx, n = S.config["size"]
    Z = values(S, "z", (ny, nx, n), "float64")
    nan = S.config.get("nan")
    gone = absent(S, Z, S.config.get("missing", 0))
    if nan is not None:
        for i in np.ndindex(ny, nx, n):
            if i not in gone:
                S.assume(S.abs(Z[i] - nan) >= M)
    keep = Z.copy()
    t = (S.real("x0", -8, 8), 1.5, 0, S.real("y0", -8, 8), 0, -0.75)
    with disk(S) as files:
        path = files.path("f.tif")
        helpers.write_raster(Z, path, nan=nan, transform=t if S.symbolic else [float(v) for v in t], crs=4326)
        S.eq(Z, keep, "the array is unchanged")
        for k in range(n):
            q = glimpse.Raster.open(path, band=k + 1)
            S.eq(q.xlim, S.array([t[0], t[0] + nx * t[1]]), "limits in x")
            S.eq(q.ylim, S.array([t[3], t[3] + ny * t[5]]), "limits in y")
            for i in np.ndindex(ny, nx):
                if i + (k,) in gone:
                    S.check(S.isnan(q.array[i]), "missing values")
                else:
                    S.eq(q.array[i], keep[i + (k,)], "values of each band")
    S.reach()


def refused(S):
    """What cannot be written is refused, and no file is made."""
    Z = S.reals("z", (2, 2), -9, 9)
    r = glimpse.Raster(Z)
    with disk(S) as files:
        bad = [(files.path("f.tif"), dict(driver="nothing"), Z), (files.path("f.nothing"), {}, Z), (files.path("f"), {}, Z), (files.path("f.tif"), {}, Z > 0)]
        path, kw, a = bad[S.config["which"]]
        S.raises(ValueError, lambda: glimpse.Raster(a).write(path, **kw), "refused")
        S.check(files.driver(path) is None, "no file")
        S.raises(ValueError, lambda: r.write(files.path("g.tif"), crs="nothing"), "unknown coordinate reference system")
        other = files.path("h.dat")
        r.write(other, driver="GTiff", transform=(1.0, 2.0, 0.0, 3.0, 0.0, -4.0), crs=32601)
        q = glimpse.Raster.open(other)
        S.eq(S.array([q.xlim, q.ylim]), S.array([[1.0, 5.0], [3.0, -5.0]]), "the transformation given")
        crs_same(S, q.crs, 32601, "the coordinate reference system given")
        S.eq(q.array, Z, "values")
    S.reach()


def image(S):
    """An image written (its own pixels, or others) is read back from the file."""
    ny, nx, n = S.config["size"]
    Z = values(S, "z", (ny, nx, n), "uint8")
    Y = values(S, "y", (ny, nx, n), "uint8")
    pixels = [a[:, :, 0] if n == 1 else a for a in (Z, Y)]
    day = datetime.datetime(2020, 1, 1)
    new = lambda path: glimpse.Image(path, cam=dict(imgsz=(nx, ny), f=1), datetime=day)
    with disk(S) as files:
        first, second = files.path("a.tif"), files.path("b." + S.config.get("extension", "tif"))
        helpers.write_raster(pixels[0].copy(), first)
        img = new(first)
        if S.concrete(S.bool("cached")):
            img.read()
        given = S.concrete(S.bool("given"))
        a = pixels[1].copy()
        k = dict(driver=S.config["driver"]) if "driver" in S.config else {}
        if given:
            k["array"] = a
        img.write(second, **k)
        S.check(files.driver(second) == S.config.get("expect", S.config.get("driver", "GTiff")), "format")
        S.eq(a, pixels[1], "array unchanged")
        S.eq(img.read(), pixels[0], "the image is unchanged")
        got = new(second)
        S.check(got.read().dtype.kind == "u", "type of numbers")
        S.eq(got.read(), pixels[1 if given else 0], "pixels")
        r, l = S.concrete(S.int("r", 1, nx)), S.concrete(S.int("l", 0, 1))
        if l < r:
            S.eq(new(second).read(box=(l, 0, r, 1), cache=False), pixels[1 if given else 0][0:1, l:r], "pixels of a part")
        S.raises(ValueError, lambda: img.write(files.path("c"), driver=None), "no format")
    S.reach()


FLIPS = [(False, True), (False, False), (True, True), (True, False)]
HARNESSES = [
    H("write", write, [dict(size=(3, 2), flip=f, free=True) for f in FLIPS[:2]] + [dict(size=(2, 3), flip=f) for f in FLIPS]
      + [dict(size=(2, 2), crs=c) for c in CRS] + [dict(size=(3, 2), missing=m, nan=v, crs="epsg") for m in (1, 2) for v in (None, -9999, 0.0)]
      + [dict(size=(2, 2), kind=k, nan=v) for k in ("int32", "uint8") for v in (None, 7)]
      + [dict(size=(2, 2), kind="uint8", name="f.png", expect="PNG", crs="epsg"), dict(size=(2, 2), name="f.dat", driver="GTiff"), dict(size=(2, 2), name="F.TIF"), dict(size=(1, 3), over=True), dict(size=(3, 1), over=True, missing=1, nan=-1)],
      thorough=[dict(size=(4, 3), flip=f, missing=2, nan=-1.5, free=True) for f in FLIPS], bounds="rasters up to 3x2 cells, up to 2 missing, 3 types of numbers, GeoTIFF and PNG"),
    H("bands", bands, [dict(size=(2, 2, 3)), dict(size=(1, 2, 2), missing=2, nan=-5), dict(size=(3, 2, 2), missing=1, nan=0)], bounds="up to 3 bands of 2x2 cells"),
    H("refused", refused, [dict(which=k) for k in range(4)], bounds="4 requests that cannot be met"),
    H("image", image, [dict(size=(2, 3, 1)), dict(size=(2, 2, 3)), dict(size=(1, 2, 3), extension="png", expect="PNG"), dict(size=(2, 2, 1), driver="GTiff", extension="dat")], bounds="images of up to 2x3 pixels and 3 bands of 8 bits"),
]
