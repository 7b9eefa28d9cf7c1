"""Lines: world lines projected into the image and matched to the nearest observed points."""
import numpy as np

from symx.runner import H

import glimpse
from glimpse.optimize import Lines
from props.H02 import _cdist
from props.O01 import XYZ, outward

ASSUMPTIONS = ["cameras without lens distortion (decided by C02) other than 3 radial ones; lines along an image axis or with slopes of a 3-4-5 triangle"]
M = 2**-10
EPS = 1e-9


def clip(S, a, b, box):
    """The part of the segment in the box, as two points: None if neither vertex is in it."""
    inside = [bool(S.and_(*[S.and_(p[i] >= 0, p[i] <= box[i]) for i in range(2)])) for p in (a, b)]
    if not any(inside):
        return None
    if all(inside):
        return a, b
    p, q = (a, b) if inside[0] else (b, a)
    t = 1.0
    for i in range(2):
        d = q[i] - p[i]
        if S.same(d, 0.0):
            continue
        if d > 0:
            t = S.min(t, (box[i] - p[i]) / d)
        elif d < 0:
            t = S.min(t, (0 - p[i]) / d)
    end = [p[i] + t * (q[i] - p[i]) for i in range(2)]
    return (p, end) if inside[0] else (end, p)


def dot(b, a, unit):
    return sum((b[i] - a[i]) * unit[i] for i in range(2)) / (unit[0] ** 2 + unit[1] ** 2)


def foot2(S, o, a, b, unit):
    """Squared distance from o to the nearest point of a segment along a vector."""
    s = dot(o, a, unit)
    length = dot(b, a, unit)
    s = S.max(0, S.min(length, s))
    return sum((a[i] + s * unit[i] - o[i]) ** 2 for i in range(2))


def margins(S, p, box):
    """Vertices are clearly in or out of the frame."""
    for i in range(2):
        for e in (0, box[i]):
            S.assume(S.abs(p[i] - e) >= M)


UNITS = dict(u=(1.0, 0.0), v=(0.0, 1.0), d=(3.0, 4.0))


def lines(S):
    """Predicted points lie on the visible lines, nearest within the target density."""
    c = S.config
    size = (8, 6)
    f = c.get("f", (2.0, 2.0))
    k = dict(imgsz=size, f=f, c=(0.25, -0.5), viewdir=c.get("viewdir", (0, 0, 0)), xyz=XYZ)
    directions = bool(c.get("directions"))
    density = c.get("density", 1.0)
    cam = glimpse.Camera(**k)
    worlds, images, units = [], [], []
    for j, (way, where) in enumerate(c["lines"]):
        unit = UNITS[way]
        sign = -1.0 if c.get("back") else 1.0
        unit = [sign * x for x in unit]
        a = [S.concrete(S.choice("a%d%d" % (j, i), w["of"])) if isinstance(w, dict) else S.real("a%d%d" % (j, i), *w) for i, w in enumerate(where["start"])]
        length = S.concrete(S.choice("l%d" % j, where["length"])) / (5 if way == "d" else 1)
        b = [a[i] + length * unit[i] for i in range(2)]
        for p in (a, b):
            margins(S, p, size)
        vertices = [a, b]
        depth = [1.0, 2.0]
        xyz = [[r[i] * d + (0 if directions else XYZ[i]) for i in range(3)] for r, d in zip(outward(k, vertices, k["viewdir"]), depth)]
        if where.get("behind"):
            # a further vertex behind the camera
            r = outward(k, [[4.0, 3.0]], k["viewdir"])[0]
            xyz.append([-r[i] + (0 if directions else XYZ[i]) for i in range(3)])
        worlds.append(S.array(xyz))
        images.append((a, b))
        units.append(unit)
    n = c.get("n", 1)
    fixed = c.get("v")
    seen = [[S.real("o%d%d" % (i, x), 0, size[x]) if x == 0 or fixed is None else fixed for x in range(2)] for i in range(n)]
    uvs = [S.array([p]) for p in seen]
    kept = [w.copy() for w in worlds]
    if S.symbolic:
        S.patch(glimpse.helpers.scipy.spatial.distance, "cdist", _cdist(S))
    L = Lines(cam=cam, uvs=uvs, xyzs=worlds, directions=directions, density=density)
    S.eq(L.size, n, "size")
    scale = 1.0
    if c.get("resize"):
        scale = c["resize"]
        L.resize(scale)
        S.eq(cam.imgsz, S.array([int(x * scale) for x in size]), "camera resized")
    index = c.get("index", slice(None))
    sel = [list(range(n))[i] for i in index] if isinstance(index, list) else list(range(n))[index]
    out = L.predicted(index=index)
    S.eq(L.observed(index=index), [[x * scale for x in seen[i]] for i in sel], "observed")
    S.check(out.shape == (len(sel), 2), "one for each observed")
    visible = [clip(S, a, b, size) for a, b in images]
    for row, i in enumerate(sel):
        p = [out[row, x] * (1 / scale) for x in range(2)]
        o = seen[i]
        got = sum((p[x] - o[x]) ** 2 for x in range(2))
        if not any(v is not None for v in visible):
            S.check(S.or_(*[S.and_(*[S.abs(p[x] - q[x]) <= EPS for x in range(2)]) for ab in images for q in ab]), "a vertex of the lines, none in view")
            for ab in images:
                for q in ab:
                    S.check(got <= sum((q[x] - o[x]) ** 2 for x in range(2)) + EPS, "the nearest vertex")
            continue
        on = []
        half = 0.75 / density / scale
        for v, unit in zip(visible, units):
            if v is None:
                continue
            a, b = v
            across = (p[0] - a[0]) * unit[1] - (p[1] - a[1]) * unit[0]
            along = dot(p, a, unit)
            length = dot(b, a, unit)
            on.append(S.and_(S.abs(across) <= EPS, along >= -EPS, along <= length + EPS))
            if sum(v is not None for v in visible) == 1:
                s = S.max(0, S.min(length, dot(o, a, unit)))
                S.check(S.abs(along - s) * (unit[0] ** 2 + unit[1] ** 2) ** 0.5 <= half + EPS, "nearest within the density")
            else:
                S.check(got <= foot2(S, o, a, b, unit) + half**2 + EPS, "nearest within the density")
        S.check(S.or_(*on), "on the visible part of a line")
    if c.get("all"):
        S.eq(L.predicted(), S.array([L.predicted(index=[i])[0] for i in range(n)]), "each as if alone")
    for w, q in zip(worlds, kept):
        S.eq(w, q, "lines unchanged")
    cam.xyz[0] += 1
    if directions:
        S.raises(ValueError, lambda: L.predicted(), "directions seen from elsewhere")
    S.reach()


def distort(k, x, y):
    """Image coordinates (8x6, f=2) of camera coordinates with radial distortion."""
    r = 1 + k * (x * x + y * y)
    return 4 + 2 * x * r, 3 + 2 * y * r


def solve(fun, goal, lo=0.0, hi=4.0):
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if fun(mid) < goal else (lo, mid)
    return (lo + hi) / 2


def distorted(S):
    """Lines are seen to the edges of images with lens distortion."""
    k, density, way = S.config["k"], 2.0, S.config["way"]
    sign = S.concrete(S.choice("side", [1.0, -1.0]))
    # camera coordinate of the point 1/8 pixel from the middle of an edge
    if way == "v":
        x = sign * solve(lambda x: distort(k, x, 0)[0], 7.875, hi=2.0)
        xy = [[x, -1.0], [x, 1.0]]
        near = distort(k, x, 0)
    else:
        y = sign * solve(lambda y: distort(k, 0, y)[1], 5.875, hi=1.5)
        xy = [[-1.0, y], [1.0, y]]
        near = distort(k, 0, y)
    cam = glimpse.Camera(imgsz=(8, 6), f=(2.0, 2.0), k=(k,), xyz=XYZ)
    world = S.array([[a * 5 + XYZ[0], 5 + XYZ[1], -b * 5 + XYZ[2]] for a, b in xy])
    near = [round(x * 64) / 64 for x in near]
    o = list(near)
    along = 1 if way == "v" else 0
    o[along] = near[along] + S.real("o", -0.5, 0.5)
    if S.symbolic:
        S.patch(glimpse.helpers.scipy.spatial.distance, "cdist", _cdist(S))
    L = Lines(cam=cam, uvs=[S.array([o])], xyzs=[world], density=density)
    p = L.predicted()[0]
    S.check(S.abs(p[1 - along] - near[1 - along]) <= 0.125, "the line is seen where it is")
    S.check(S.abs(p[along] - o[along]) <= 0.75 / density, "nearest within the density")
    S.reach()


SHORT, LONG = [0.2, 0.9, 1.0, 1.7, 2.0], [2.6, 4.3]
def sizes(S):
    """Observed points of lines follow the sizes of their camera, and so do those predicted."""
    size = (8, 6)
    k = dict(imgsz=size, f=(2.0, 2.0), c=(0.25, -0.5), xyz=XYZ)
    cam = glimpse.Camera(**k)
    a = [S.real("a", 0.5, 3.5), 2.25]
    vertices = [a, [a[0] + 1.5, a[1]]]
    world = S.array([[r[i] * 2.0 + XYZ[i] for i in range(3)] for r in outward(k, vertices, (0, 0, 0))])
    seen = [[[S.real("o%d%d%d" % (j, i, x), 0.5, size[x] - 0.5) for x in range(2)] for i in range(n)] for j, n in enumerate((1, 2))]
    uvs = [S.array(s) for s in seen]
    L = Lines(cam=cam, uvs=uvs, xyzs=[world])
    for step in S.config["steps"]:
        (cam if step[0] == "camera" else L).resize(*step[1:])
    L.resize()
    s = [int(n) / m for n, m in zip(cam.imgsz, size)]
    S.eq(L.observed(), [[p[0] * s[0], p[1] * s[1]] for part in seen for p in part], "observed at the size of the camera")
    for now, part in zip(L.uvs, seen):
        S.eq(now, [[p[0] * s[0], p[1] * s[1]] for p in part], "each line at the size of the camera")
    for before, part in zip(uvs, seen):
        S.eq(before, part, "arguments unchanged")
    S.eq(L.size, 3, "number of points")
    S.reach()


def moved(S):
    """Directions are refused from any other camera position, world points from none."""
    base = S.config["xyz"]
    cam = glimpse.Camera(imgsz=(8, 6), f=(2.0, 2.0), xyz=base)
    ray = S.array([[-0.5, 2.0, 0.25], [0.5, 2.0, 0.25]])
    if S.symbolic:
        S.patch(glimpse.helpers.scipy.spatial.distance, "cdist", _cdist(S))
    uv = S.array([[3.0, 2.5]])
    made = [(glimpse.optimize.Points(cam=cam, uv=uv, xyz=ray[:1], directions=True), True), (Lines(cam=cam, uvs=[uv], xyzs=[ray], directions=True), True),
            (glimpse.optimize.Points(cam=cam, uv=uv, xyz=ray[:1] + np.array(base)), False), (Lines(cam=cam, uvs=[uv], xyzs=[ray + np.array(base)]), False)]
    before = [m.predicted() for m, _ in made]
    if S.config.get("by"):
        cam.xyz[S.concrete(S.int("axis", 0, 2))] += S.real("by", 2**-6, 2**-5) * S.config["by"]
        for m, directions in made:
            if directions:
                S.raises(ValueError, lambda: m.predicted(), "directions seen from elsewhere")
            else:
                m.predicted()
    else:
        # set to where it was
        cam.xyz = list(base)
        for (m, _), b in zip(made, before):
            S.eq(m.predicted(), b, "same position")
    S.reach()


FAR = dict(of=[-3.0, 0.75, 3.5, 7.25])
HARNESSES = [
    H("one", lines, [dict(lines=[["u", dict(start=((0, 4), (0, 6)), length=[l])]], f=f, density=d, back=b) for f, d, b in (((2.0, 2.0), 1.0, False), ((2.0, 2.0), 2.0, False)) for l in SHORT]
      + [dict(lines=[["u", dict(start=((0, 4), (0, 6)), length=[l])]], f=(2.0, 1.5), back=True) for l in SHORT[:3] + SHORT[4:]]
      + [dict(lines=[["u", dict(start=((0, 4), (0, 6)), length=LONG)]]), dict(lines=[["d", dict(start=((0, 4), (0, 3)), length=SHORT)]]), dict(lines=[["v", dict(start=((0, 8), (0, 3)), length=SHORT)]], f=(1.5, 2.0))],
      thorough=[dict(lines=[["u", dict(start=((0, 3), (0, 6)), length=[l])]], density=d) for l in (3.0, 4.9) for d in (1.0, 2.0)],
      bounds="one line of 2 vertices at any place of the frame, 7 lengths up to 4.3 pixels, 1 observed point anywhere"),
    H("view", lines, [dict(lines=[["u", dict(start=(FAR, (0, 6)), length=[1.25, 4.0, 9.0])]], directions=q) for q in (False, True)]
      + [dict(lines=[["v", dict(start=((0, 8), dict(of=[-1.5, 2.25, 4.75])), length=[1.25, 4.0])]]), dict(lines=[["v", dict(start=(dict(of=[2.0]), dict(of=[2.25])), length=[1.25])]], viewdir=(90, 0, 0), v=3.0)]
      + [dict(lines=[["d", dict(start=(dict(of=[x]), dict(of=[1.75, 4.5, 5.75])), length=[4.0])]], v=3.25) for x in (2.5, 4.25, 7.0)] + [
         dict(lines=[["u", dict(start=((9, 12), (-3, 9)), length=[0.5, 2.0])]]), dict(lines=[["u", dict(start=((2, 6), (0, 6)), length=[0.5, 1.5], behind=True)]])],
      bounds="one line of 2 vertices in and beyond the view, a vertex behind the camera"),
    H("several", lines, [dict(lines=[["u", dict(start=(dict(of=[0.5, 2.25]), dict(of=[1.25, 2.75])), length=[1.5])], ["v", dict(start=(dict(of=[4.5, 6.0]), dict(of=[3.25, 4.0])), length=[1.25])]], v=v) for v in (2.0, 4.25)] + [
                         dict(lines=[["u", dict(start=((0, 4), (0, 6)), length=[0.5, 1.5])], ["u", dict(start=((9, 10), (0, 6)), length=[1.5])]]),
                         dict(lines=[["u", dict(start=((0, 4), (0, 6)), length=[2.0])]], n=2, all=True), dict(lines=[["u", dict(start=((0, 4), (0, 6)), length=[1.5])]], n=3, index=[2, 0]),
                         dict(lines=[["u", dict(start=((0, 2), (0, 6)), length=[1.5, 4.5])]], resize=0.5)],
      bounds="2 lines, 3 observed points, a resized camera"),
    H("distorted", distorted, [dict(k=k, way=w) for k in (0.25, 0.0625, -0.03125) for w in "vu"], bounds="3 radial distortions, lines near each edge, a point observed near its middle"),
    H("moved", moved, [dict(xyz=x, by=b) for x in ((0, 0, 0), (431250.0, 7100000.0, 512.0)) for b in (0, 1, -16)], bounds="a camera near to and far from the origin moved along any axis by any distance of 1/64 to 1/32, or 16 times that"),
    H("sizes", sizes, [dict(steps=[("lines", 0.5)]), dict(steps=[("lines", (16, 6), True)]), dict(steps=[("camera", (4, 12), True), ("lines",), ("lines", 1)]), dict(steps=[("camera", 2), ("lines", (4, 3)), ("lines", (8, 3), True)])],
      bounds="3 observed points of 2 lines anywhere, sequences of sizes"),
]
