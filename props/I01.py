"""Reading images: any part, any size, cached or not."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
import glimpse.image as module

ASSUMPTIONS = ["GDAL reads windows of files and samples them to the buffer size asked by nearest neighbor (replays use real files, in memory)"]

COUNT = [0]


class Band:
    def __init__(self, Z):
        self.Z = Z

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, buf_xsize=None, buf_ysize=None):
        ny, nx = self.Z.shape
        wx = nx if win_xsize is None else int(win_xsize)
        wy = ny if win_ysize is None else int(win_ysize)
        bx = wx if buf_xsize is None else int(buf_xsize)
        by = wy if buf_ysize is None else int(buf_ysize)
        xoff, yoff = int(xoff), int(yoff)
        if xoff < 0 or yoff < 0 or wx < 1 or wy < 1 or xoff + wx > nx or yoff + wy > ny:
            raise RuntimeError("Access window out of range in RasterIO()")
        cols = [xoff + int((c + 0.5) * wx / bx + 1e-10) for c in range(bx)]
        rows = [yoff + int((r + 0.5) * wy / by + 1e-10) for r in range(by)]
        return self.Z[rows][:, cols]


class Dataset:
    def __init__(self, bands):
        self.bands = bands
        self.RasterYSize, self.RasterXSize = bands[0].shape
        self.RasterCount = len(bands)

    def GetRasterBand(self, i):
        if not 1 <= i <= len(self.bands):
            raise RuntimeError("no such band")
        return Band(self.bands[i - 1])

    def ReadAsArray(self, *args, **k):
        a = [Band(b).ReadAsArray(*args, **k) for b in self.bands]
        return a[0] if len(a) == 1 else np.stack(a, axis=0)


def stored(S, bands):
    """A file of these bands; returns its path."""
    if S.symbolic:
        S.patch(module.osgeo.gdal, "Open", lambda path, *a: Dataset(bands))
        S.patch(module, "sharedmem", type("M", (), dict(copy=staticmethod(lambda a: a.copy()))))
        return "image.tif"
    import osgeo.gdal as gdal

    gdal.Unlink("/vsimem/image%d.tif" % (COUNT[0]))
    COUNT[0] += 1
    name = "/vsimem/image%d.tif" % COUNT[0]
    ny, nx = bands[0].shape
    ds = gdal.GetDriverByName("GTiff").Create(name, nx, ny, len(bands), gdal.GDT_Float64)
    for i, b in enumerate(bands):
        ds.GetRasterBand(i + 1).WriteArray(np.array(b, dtype=float))
    ds = None
    return name


def image(S, path, size):
    import datetime

    return glimpse.Image(path, cam=dict(imgsz=size, f=1), datetime=datetime.datetime(2020, 1, 1))


def box(S, name, size):
    """Any box of pixels within an image."""
    l = S.concrete(S.int(name + "l", 0, size[0] - 1))
    r = S.concrete(S.int(name + "r", l + 1, size[0]))
    t = S.concrete(S.int(name + "t", 0, size[1] - 1))
    b = S.concrete(S.int(name + "b", t + 1, size[1]))
    return l, t, r, b


def file(S):
    nx, ny = S.config["size"]
    return [S.reals("z%d" % i, (ny, nx), -9, 9) for i in range(S.config.get("bands", 1))]


def check(S, got, bands, size, part, label):
    """Each pixel is that of the file nearest to it."""
    l, t, r, b = part or (0, 0) + tuple(size)
    n = len(bands)
    S.check(tuple(got.shape) == (b - t, r - l) + ((n,) if n > 1 else ()), label + ": shape")
    fy, fx = bands[0].shape
    for i, j, k in itertools.product(range(t, b), range(l, r), range(n)):
        y, x = (i + 0.5) * fy / size[1], (j + 0.5) * fx / size[0]
        near = []
        for p, q in itertools.product(range(fy), range(fx)):
            # within half a pixel
            if abs(p + 0.5 - y) <= 0.5 + 1e-9 and abs(q + 0.5 - x) <= 0.5 + 1e-9:
                near.append(bands[k][p, q])
        v = got[i - t, j - l] if n == 1 else got[i - t, j - l, k]
        if len(near) == 1:
            S.eq(v, near[0], label + ": pixel")
        else:
            S.check(S.or_(*[S.abs(v - w) <= 1e-9 for w in near]), label + ": pixel")


def read(S):
    """Reads of any part, at any sizes of the camera, in sequence."""
    bands = file(S)
    path = stored(S, bands)
    size = S.config["size"]
    img = image(S, path, size)
    for n, step in enumerate(S.config["steps"]):
        op = step[0]
        if op == "resize":
            img.cam.resize(step[1], force=len(step) > 2)
        elif op == "clear":
            img.array = None
        else:
            cache = op == "cached"
            now = tuple(int(v) for v in img.cam.imgsz)
            part = None
            if len(step) > 1 and step[1] == "box":
                part = box(S, "b%d" % n, now)
            elif len(step) > 1:
                part = step[1]
            had = img.array
            got = img.read(box=part, cache=cache)
            check(S, got, bands, now, part, "%s read" % op)
            # the same as part of all
            if part is not None:
                whole = image(S, path, size)
                whole.cam.resize(np.array(now), force=True)
                W = whole.read()
                S.eq(got, W[part[1]:part[3], part[0]:part[2]], "as part of the whole")
            if cache:
                S.check(img.array is not None and tuple(img.array.shape[1::-1]) == now, "cached")
                check(S, img.array, bands, now, None, "cache")
            else:
                S.check(img.array is had, "cache left alone")
            S.check(tuple(int(v) for v in img.cam.imgsz) == now, "camera unchanged")
    S.reach()


STEPS = [
    [("cached", "box")],
    [("direct", "box")],
    [("resize", 0.5), ("direct", "box")],
    [("resize", 2), ("direct", "box")],
    [("resize", 2), ("cached", "box"), ("resize", 1), ("direct", (1, 0, 3, 2))],
    [("cached",), ("resize", 0.5), ("direct", "box"), ("cached",)],
    [("cached",), ("resize", 0.5), ("cached", "box"), ("clear",), ("direct", (0, 0, 1, 1))],
    [("resize", 0.5), ("cached",), ("resize", 1), ("direct", "box")],
    [("cached",), ("direct", "box")],
    [("direct",), ("cached", (1, 1, 3, 2)), ("direct", "box")],
]

HARNESSES = [
    H("read", read, [dict(size=(4, 2), steps=s) for s in STEPS] + [dict(size=(2, 4), steps=s, bands=3) for s in (STEPS[2], STEPS[0], STEPS[7])]
      + [dict(size=(4, 4), steps=[("resize", 0.75), ("direct", (1, 0, 3, 2)), ("cached",)]), dict(size=(3, 3), steps=[("resize", 5 / 3), ("direct", (1, 2, 5, 4)), ("cached",)])]
      + [dict(size=(4, 2), steps=[("cached",), ("resize", q, True), ("direct", (1, 0, 2, 1)), ("cached",)]) for q in ((4, 4), (2, 2), (4, 1))],
      thorough=[dict(size=(4, 4), steps=s) for s in STEPS] + [dict(size=(6, 4), steps=s, bands=2) for s in STEPS],
      bounds="files of up to 4x4 pixels (any values) and 3 bands, any part, sequences of up to 5 reads and resizes"),
]
