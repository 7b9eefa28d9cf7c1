"""Images as seen by another camera."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from props.common import patch_interpolation
from props.I01 import stored

ASSUMPTIONS = ["RegularGridInterpolator is bilinear or nearest (replays use the real one)", "GDAL reads files (replays use real files, in memory)"]
M = 2**-12


def rotation(viewdir):
    """World to camera (x right, y down, z ahead) for yaw, pitch, roll in degrees."""
    y, p, r = [np.deg2rad(float(a)) for a in viewdir]
    ahead = np.array([np.sin(y) * np.cos(p), np.cos(y) * np.cos(p), np.sin(p)])
    right = np.array([np.cos(y), -np.sin(y), 0.0])
    down = np.cross(ahead, right)
    c, s = np.cos(r), np.sin(r)
    R = np.array([c * right + s * down, -s * right + c * down, ahead])
    R[np.abs(R) < 1e-12] = 0
    return R


def camera(S, name, vary):
    c = S.config[name]
    f = [S.real(name + "f%d" % i, 1, 4) if ("f%d" % i) in vary else v for i, v in enumerate(c.get("f", (2.0, 2.5)))]
    o = [S.real(name + "c%d" % i, -2, 2) if ("c%d" % i) in vary else v for i, v in enumerate(c.get("c", (0.0, 0.0)))]
    kw = dict(imgsz=c["imgsz"], f=tuple(f), c=tuple(o), viewdir=c.get("viewdir", (0, 0, 0)), xyz=(1.0, -2.0, 3.0))
    return kw, f, o


def project(S):
    """Each pixel is the value of the image where its ray falls, or nothing."""
    import datetime

    patch_interpolation(S)
    src, fs, cs = camera(S, "source", S.config.get("vary", ("f0", "c1")))
    tgt, ft, ct = camera(S, "target", S.config.get("tvary", ()))
    method = S.config.get("method", "linear")
    nb = S.config.get("bands", 1)
    (sx, sy), (tx, ty) = src["imgsz"], tgt["imgsz"]
    fx, fy = S.config.get("file", src["imgsz"])
    bands = [S.reals("z%d" % b, (fy, fx), -9, 9) for b in range(nb)]
    img = glimpse.Image(stored(S, bands), cam=glimpse.Camera(**src), datetime=datetime.datetime(2020, 1, 1))
    cam = glimpse.Camera(**tgt)
    if (fx, fy) == (sx, sy):
        Z = bands
    else:
        Z = [b[[int((i + 0.5) * fy / sy) for i in range(sy)]][:, [int((i + 0.5) * fx / sx) for i in range(sx)]] for b in bands]
    R = rotation(src.get("viewdir")) @ rotation(tgt.get("viewdir")).T
    R[np.abs(R) < 1e-12] = 0
    want = {}
    for r, c in itertools.product(range(ty), range(tx)):
        ray = [(c + 0.5 - tx / 2 - ct[0]) / ft[0], (r + 0.5 - ty / 2 - ct[1]) / ft[1], 1.0]
        q = [sum(float(R[i, j]) * ray[j] for j in range(3) if R[i, j]) for i in range(3)]
        S.assume(S.abs(q[2]) >= 2**-6) if S.symbolic and not isinstance(q[2], float) else None
        if isinstance(q[2], float) and abs(q[2]) < 2**-6:
            return
        if not q[2] > 0:
            want[r, c] = None
            continue
        u = fs[0] * q[0] / q[2] + sx / 2 + cs[0] - 0.5
        v = fs[1] * q[1] / q[2] + sy / 2 + cs[1] - 0.5
        inside = True
        at = []
        for w, n in ((u, sx), (v, sy)):
            # away from the limits of the pixels and between (or exactly on them)
            for e in range(2 * n):
                S.assume(S.or_(S.abs(w - e / 2) >= M) if method == "nearest" or e in (0, 2 * n - 2) else True)
            if not (w > 0 and w < n - 1):
                inside = False
                break
            i = 0
            while i < n - 2 and w > i + 1:
                i += 1
            at.append((i, w - i))
        if not inside:
            want[r, c] = None
            continue
        (i, a), (j, b) = at
        if method == "nearest":
            i, j = i + int(bool(a > 0.5)), j + int(bool(b > 0.5))
            want[r, c] = [z[j, i] for z in Z]
        else:
            want[r, c] = [(z[j, i] * (1 - a) + z[j, i + 1] * a) * (1 - b) + (z[j + 1, i] * (1 - a) + z[j + 1, i + 1] * a) * b for z in Z]
    before = img.cam.to_array().copy(), cam.to_array().copy()
    got = img.project(cam, method=method) if method != "linear" or S.config.get("explicit") else img.project(cam)
    S.check(tuple(got.shape) == (ty, tx, nb), "shape of image")
    for (r, c), w in want.items():
        for b in range(nb):
            if w is None:
                S.check(S.isnan(got[r, c, b]), "nothing seen outside of the image or behind it")
            else:
                S.eq(got[r, c, b], w[b], "value where the ray falls", tol=1e-6)
    S.eq(img.cam.to_array(), before[0], "cameras unchanged")
    S.eq(cam.to_array(), before[1], "cameras unchanged")
    S.reach()


def refused(S):
    """Cameras elsewhere are refused."""
    import datetime

    bands = [S.array([[1.0, 2.0], [3.0, 4.0]])]
    base = S.config.get("base", [1.0, 2.0, 3.0])
    off = [S.real("x%d" % i, -9, 9) for i in range(3)]
    xyz = [b + x for b, x in zip(base, off)]
    img = glimpse.Image(stored(S, bands), cam=glimpse.Camera(imgsz=(2, 2), f=1, xyz=base), datetime=datetime.datetime(2020, 1, 1))
    cam = glimpse.Camera(imgsz=(2, 2), f=1, xyz=xyz)
    far = S.or_(*[S.abs(x) >= 0.25 for x in off])
    S.assume(far if "base" in S.config else S.not_(S.and_(*[x == 0 for x in off])))
    S.raises(ValueError, lambda: img.project(cam), "camera elsewhere")
    S.reach()


def cfg(src, tgt, **k):
    return dict(source=src, target=tgt, **k)


HARNESSES = [
    H("project", project, [
        cfg(dict(imgsz=(3, 2)), dict(imgsz=(2, 2))),
        cfg(dict(imgsz=(2, 3)), dict(imgsz=(2, 2), f=(2.0, 1.0)), bands=2, vary=("f1", "c0")),
        cfg(dict(imgsz=(3, 3), f=(1.0, 1.5)), dict(imgsz=(3, 1)), vary=("c0", "c1")),
        cfg(dict(imgsz=(3, 2), viewdir=(90, 0, 0)), dict(imgsz=(2, 2), viewdir=(90, 0, 90))),
        cfg(dict(imgsz=(3, 2), viewdir=(10, 20, 5)), dict(imgsz=(2, 2), viewdir=(190, -20, 0), f=(0.4, 0.4)), vary=("c0",)),
        cfg(dict(imgsz=(3, 2), viewdir=(30, 10, 0)), dict(imgsz=(2, 1), viewdir=(45, 5, 10)), vary=("c0",)),
        cfg(dict(imgsz=(3, 2)), dict(imgsz=(2, 2)), method="nearest"),
        cfg(dict(imgsz=(2, 3)), dict(imgsz=(1, 3)), method="nearest", vary=("f1", "c0"), bands=3),
        cfg(dict(imgsz=(2, 2)), dict(imgsz=(1, 2)), vary=("c0",), bands=4),
        cfg(dict(imgsz=(4, 2)), dict(imgsz=(2, 2)), file=(2, 2), vary=("c0", "c1"), explicit=True),
        cfg(dict(imgsz=(2, 2)), dict(imgsz=(3, 3)), vary=(), tvary=("f0", "c1"), explicit=True),
    ], bounds="images of up to 4x4 pixels and 4 bands, any two of focal lengths and principal points, several rotations"),
    H("refused", refused, [dict(), dict(base=[524288.0, 8388608.0, 1024.0])], bounds="any other position (or by a quarter far from the origin)"),
]
