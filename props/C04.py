"""The image frame: what is in it, its grid and edges, its viewshed, rasterized points."""
import numpy as np

from symx.runner import H

import glimpse
from props.common import camera, rotation


def inframe(S):
    """A point is in frame if and only if its coordinates are within those of the image."""
    cam = camera(S, angles=False, pos=False)
    uv = S.reals("uv", (2, 2), -20, 20)
    got = cam.inframe(uv)
    for i in range(2):
        S.eq(got[i], S.and_(uv[i, 0] >= 0, uv[i, 0] <= 7, uv[i, 1] >= 0, uv[i, 1] <= 5), "in or on the frame")
    bad = S.array([[np.nan, uv[0, 1]], [uv[0, 0], np.nan]])
    S.check(S.not_(S.or_(*cam.inframe(bad))), "undefined coordinates are not in the frame")
    S.reach()


def rasterize(S):
    """Each pixel is the mean of the points in it; the others are NaN."""
    nx, ny = S.config["imgsz"]
    n = S.config["n"]
    d = S.config.get("d")
    cam = glimpse.Camera(imgsz=(nx, ny), f=1)
    uv = S.reals("uv", (n, 2), -1, max(nx, ny) + 1)
    vals = S.reals("v", n if d is None else (n, d), -9, 9)
    keep = uv.copy()
    img = cam.rasterize(uv, vals)
    S.eq(uv, keep, "input points unchanged")
    S.check(tuple(img.shape) == (ny, nx) + ((d,) if d and d > 1 else ()), "shape of the image")
    for r in range(ny):
        for c in range(nx):
            inside = []
            for i in range(n):
                u, v = keep[i]
                hi = S.or_(u < c + 1, S.and_(c == nx - 1, u <= nx))
                vi = S.or_(v < r + 1, S.and_(r == ny - 1, v <= ny))
                inside.append(S.and_(u >= c, hi, v >= r, vi))
            count = sum(S.ite(b, 1, 0) for b in inside)
            for k in range(d or 1):
                total = sum(S.ite(b, vals[i] if d is None else vals[i, k], 0.0) for i, b in enumerate(inside))
                got = img[r, c, k] if d and d > 1 else img[r, c]
                if count == 0:
                    S.check(S.isnan(got), "pixels without points are NaN")
                else:
                    S.eq(got * count, total, "mean of the points in the pixel")
    S.reach()


def grid(S):
    """Grid points are every point of the aligned lattice inside the frame, in row order."""
    nx, ny = S.config["imgsz"]
    cam = glimpse.Camera(imgsz=(nx, ny), f=1)
    sx, sy = S.real("sx", 0.75, 4), S.real("sy", 0.75, 4)
    ox, oy = S.real("ox", -3, 3), S.real("oy", -3, 3)
    if S.config["scalar"]:
        S.assume(sx == sy)
        step = sx
    else:
        step = (sx, sy)
    for o, s, n in ((ox, sx, nx), (oy, sy, ny)):
        # a lattice point on the frame is not decided in floats
        for k in range(-8, 9):
            p = o + k * s
            for e in (0, n):
                S.assume(S.or_(p - e >= 2**-16, p - e <= -(2**-16)))
    x, y = cam.grid(step=step, snap=(ox, oy), mode="vectors")
    for v, o, s, n in ((x, ox, sx, nx), (y, oy, sy, ny)):
        m = len(v)
        S.check(m >= 1 or n < s, "grid is not empty")
        for i in range(m):
            S.check(S.and_(v[i] >= 0, v[i] <= n), "grid points are in the frame")
            if i:
                S.eq(v[i] - v[i - 1], s, "grid spacing")
        if m:
            k = (v[0] - o) / s
            r = S.floor(k + 0.5)
            S.eq(k, r, "grid is aligned to the snap point", tol=1e-6)
            S.check(S.and_(v[0] - s < 0, v[m - 1] + s > n), "grid fills the frame")
    X, Y = cam.grid(step=step, snap=(ox, oy), mode="grids")
    P = cam.grid(step=step, snap=(ox, oy), mode="points")
    S.check(X.shape == (len(y), len(x)) and Y.shape == X.shape and P.shape == (len(x) * len(y), 2), "grid shapes")
    k = 0
    for j in range(len(y)):
        for i in range(len(x)):
            S.eq(X[j, i], x[i], "x of grid")
            S.eq(Y[j, i], y[j], "y of grid")
            S.eq(P[k], S.array([x[i], y[j]]), "points of grid, by row")
            k += 1
    S.reach()


def edges(S):
    """Edge points go once around the frame, evenly spaced on each side."""
    nx, ny = S.config["imgsz"]
    cam = glimpse.Camera(imgsz=(nx, ny), f=1)
    step = S.config["step"]
    if step == "any":
        n, m = S.config["number"]
        step = st = tuple(S.real("step%d" % k, size / (number + 1) + 2**-8, size / number - (2**-8 if number > 1 else 0)) for k, (size, number) in enumerate(((nx, n), (ny, m))))
    else:
        st = step if isinstance(step, tuple) else (step, step)
        n, m = int(nx / st[0]), int(ny / st[1])
    e = cam.edges(step=step)
    want = [(nx * i / n, 0) for i in range(n)] + [(nx, ny * j / m) for j in range(m)]
    want += [(nx - nx * i / n, ny) for i in range(n)] + [(0, ny - ny * j / m) for j in range(m)]
    S.eq(e, S.array(want, dtype=float), "edge points")
    S.reach()


def viewbox(S):
    """The bounding box holds the camera and every edge point at the depth, tightly."""
    cfg = S.config
    f, c, depth = (2.0, 4.0), (0.25, -0.5), 8.0
    if cfg["free"] == "f":
        f, c = S.reals("f", 2, 1, 100), 0
    elif cfg["free"] == "c":
        c = S.reals("c", 2, -4, 4)
    else:
        depth = S.real("depth", 0.5, 100)
    cam = glimpse.Camera(imgsz=cfg["imgsz"], f=f, c=c, xyz=S.reals("cam", 3, -50, 50), viewdir=cfg["viewdir"])
    box = cam.viewbox(depth)
    R = rotation(S, cam.viewdir)
    nx, ny = S.config["imgsz"]
    edge = [(u, v) for u in range(nx + 1) for v in range(ny + 1) if u in (0, nx) or v in (0, ny)]
    pts = []
    for u, v in edge:
        q = ((u - nx / 2 - cam.c[0]) / cam.f[0] * depth, (v - ny / 2 - cam.c[1]) / cam.f[1] * depth, depth)
        pts.append([cam.xyz[k] + sum(q[j] * R[j][k] for j in range(3)) for k in range(3)])
    pts.append(list(cam.xyz))
    for k in range(3):
        for p in pts:
            S.check(S.and_(box[k] <= p[k] + 1e-6, p[k] <= box[k + 3] + 1e-6), "box holds the viewshed")
        S.check(S.or_(*[S.abs(p[k] - box[k]) <= 1e-6 for p in pts]), "lower bound is reached")
        S.check(S.or_(*[S.abs(p[k] - box[k + 3]) <= 1e-6 for p in pts]), "upper bound is reached")
    S.reach()


def viewpoly(S):
    """Camera, left and right ends of the principal row at the depth, camera."""
    cam = camera(S)
    depth = S.real("depth", 0.5, 100)
    poly = cam.viewpoly(depth)
    R = rotation(S, cam.viewdir)
    want = [list(cam.xyz)]
    for u in (0, 7):
        q = ((u - 3.5 - cam.c[0]) / cam.f[0] * depth, 0, depth)
        want.append([cam.xyz[k] + sum(q[j] * R[j][k] for j in range(3)) for k in range(3)])
    want.append(list(cam.xyz))
    S.eq(poly, S.array(want), "view polygon")
    S.reach()


def spherical(S):
    """Azimuth clockwise from north, altitude above the horizon, distance."""
    cam = camera(S, angles=False, f=1, c=0)
    if S.config.get("where"):
        cam.xyz = S.reals("at", 3, *S.config["where"])
    az, alt = S.angle("az"), S.angle("alt")
    dist = S.real("dist", 0.25, 100)
    cols = [az, alt, dist] if S.config["distance"] else [az, alt]
    a = S.array([cols] * S.config.get("rows", 1))
    keep = a.copy()
    xyz = cam.spherical_to_xyz(a)
    S.eq(a, keep, "input angles unchanged")
    r = np.pi / 180
    ca, sa, cl, sl = S.cos(az * r), S.sin(az * r), S.cos(alt * r), S.sin(alt * r)
    want = [cl * sa, cl * ca, sl]
    if S.config["distance"]:
        want = [w * dist + cam.xyz[i] for i, w in enumerate(want)]
    S.eq(xyz, S.array([want] * len(a)), "direction of the angles")
    # back: altitudes within a quarter turn of the horizon
    S.assume(cl >= 2**-4)
    b = cam.xyz_to_spherical(xyz, directions=not S.config["distance"])
    S.check(b.shape == (len(a), 3 if S.config["distance"] else 2), "shape")
    S.eq(S.cos(b[0, 0] * r), ca, "azimuth returns (cosine)")
    S.eq(S.sin(b[0, 0] * r), sa, "azimuth returns (sine)")
    S.eq(S.sin(b[0, 1] * r), sl, "altitude returns (sine)")
    S.eq(S.cos(b[0, 1] * r), cl, "altitude returns (cosine)")
    S.check(S.and_(b[0, 0] >= 0, b[0, 0] <= 360, b[0, 1] >= -90.001, b[0, 1] <= 90.001), "angle ranges")
    if S.config["distance"]:
        S.eq(b[0, 2], dist, "distance returns")
    S.reach()


HARNESSES = [
    H("inframe", inframe, bounds="2 points"),
    H("rasterize", rasterize, [dict(imgsz=(2, 1), n=2), dict(imgsz=(1, 2), n=2), dict(imgsz=(2, 2), n=1), dict(imgsz=(3, 2), n=1), dict(imgsz=(2, 1), n=2, d=2), dict(imgsz=(1, 2), n=1, d=1)],
      thorough=[dict(imgsz=(2, 2), n=2), dict(imgsz=(2, 1), n=3)], bounds="images up to 3x2, up to 2 (thorough: 3) points"),
    H("grid", grid, [dict(imgsz=(3, 2), scalar=b) for b in (True, False)], bounds="3x2 image, step in [3/4,4]"),
    H("edges", edges, [dict(imgsz=(3, 2), step=1), dict(imgsz=(4, 2), step=(2, 1)), dict(imgsz=(3, 3), step=1.5), dict(imgsz=(5, 4), step=(1, 2)), dict(imgsz=(2, 5), step=1)] + [dict(imgsz=(3, 4), step="any", number=k) for k in ((1, 1), (2, 3), (4, 2), (1, 5), (6, 6))],
      bounds="concrete sizes, any steps which divide sides into 1-6 parts (at least 2^-8 from those which divide them evenly)"),
    H("viewbox", viewbox, [dict(imgsz=i, viewdir=v, free=f) for i in ((2, 1), (1, 2)) for f in ("f", "c", "depth")
                           for v in ((0, 0, 0), (30, -20, 10), (200, 60, -100))[:1 if f == "f" else 3]],
      bounds="images up to 2x1, fixed angles; any position and one of: focal length, principal point, depth"),
    H("viewpoly", viewpoly, bounds="any camera"),
    H("spherical", spherical, [dict(distance=b) for b in (True, False)] + [dict(distance=False, rows=3), dict(distance=False, where=[-30, -1]), dict(distance=False, where=[1, 30])], bounds="any angles; inverse for |altitude| up to acos(1/16)"),
]
