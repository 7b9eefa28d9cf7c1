"""Structure of optimizations: dependencies, scales, and impossible definitions."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from glimpse.optimize import Cameras, Lines, Matches, Points
from props.O02 import START, elements, expand, order, stubs, vector

ASSUMPTIONS = ["np.log and np.arctan of numbers which are not inputs"]


def scene(S, n=3):
    C = [glimpse.Camera(imgsz=(8, 6), f=(S.real("f%d0" % i, 2, 4), S.real("f%d1" % i, 2, 4)), c=(S.real("c%d" % i, -1, 1), 0.0)) for i in range(n)]
    return C


def sparsity(S):
    """Residuals depend on no parameter outside of the structure, which holds those of their cameras."""
    stubs(S)
    C = scene(S)
    P = lambda i, m=1: Points(cam=C[i], uv=S.reals("uv%d" % i, (m, 2), 0, 6), xyz=np.array([[1.0, 4.0, 0.5], [-1.0, 2.0, 0.5]])[:m], directions=True)
    X = lambda i, j: Matches(cams=(C[i], C[j]), uvs=[S.reals("m%d%d%d" % (i, j, q), (1, 2), 1, 5) for q in range(2)])
    controls = [eval(c, {"P": P, "X": X}) for c in S.config["controls"]]
    used = [C[i] for i in S.config["cams"]]
    cp, gi, gp = S.config.get("cam_params"), S.config.get("groups"), S.config.get("group_params")
    model = Cameras(cams=used, controls=controls, cam_params=cp, group_indices=gi, group_params=gp, scales=False, sparsity=True)
    n = len(used)
    cp = [{}] * n if cp is None else cp
    gi = [range(n)] if gi is None else gi
    gp = [{}] * len(gi) if gp is None else gp
    what = order(S, used, [elements(p) for p in cp], gi, [elements(p) for p in gp])
    kept = [c for c in controls if any(cam in used for cam in (c.cams if isinstance(c, Matches) else [c.cam]))]
    S.check([id(c) for c in model.controls] == [id(c) for c in kept], "control of the cameras")
    A = np.asarray(model.sparsity.todense())
    size = sum(c.size for c in kept)
    S.check(A.shape == (2 * size, len(what)), "shape")
    x = vector(S, what)
    base = model.residuals(params=x).reshape(-1)
    own = []
    for c in kept:
        own += [[used.index(cam) for cam in (c.cams if isinstance(c, Matches) else [c.cam]) if cam in used]] * (2 * c.size)
    for j, (idx, e) in enumerate(what):
        y = list(x)
        y[j] = S.real("y%d" % j, 2, 5)
        other = model.residuals(params=y).reshape(-1)
        for r in range(2 * size):
            S.check(bool(A[r, j]) == bool(set(own[r]) & set(idx)), "structure")
            if not A[r, j]:
                S.eq(other[r], base[r], "residuals independent of the parameter")
    S.reach()


def scales(S):
    """Scales are the changes which move a point by about one pixel, in the order of parameters."""
    stubs(S)
    kw = [dict(imgsz=(8, 6), f=2.5), dict(imgsz=(10, 20), f=(3.0, 5.0))]
    xyz = [(1.0, 2.0, 3.0), (0.0, 0.0, 0.0)]
    C = [glimpse.Camera(xyz=p, **k) for p, k in zip(xyz, kw)]
    # points in directions of integer length
    D = [(3, 4, 0), (0, 3, 4), (2, 3, 6)]
    L = [5, 5, 7]
    t = [S.real("t%d" % i, 0.25, 4) for i in range(3)]
    at = lambda i, q: [xyz[i][j] + D[q][j] * t[q] for j in range(3)]
    uv = np.zeros((1, 2))
    controls = [Points(cam=C[0], uv=np.zeros((2, 2)), xyz=S.array([at(0, 0), at(0, 1)])), Points(cam=C[1], uv=uv, xyz=S.array([at(1, 0)])),
                Points(cam=C[0], uv=uv, xyz=S.array([at(0, 1)]), directions=True)]
    if S.config.get("lines"):
        controls.append(Lines(cam=C[0], uvs=[uv], xyzs=[S.array([at(0, 2)])]))
    own = [Cameras.camera_scales(cam, controls) for cam in C]
    bare = [Cameras.camera_scales(cam) for cam in C]
    for i, s in enumerate(own):
        S.check(s.shape == (20,), "one scale for each element")
        for v in s:
            S.check(v > 0, "scales above zero")
        S.eq(s[10:12], [1, 1], "scale of the principal point")
        S.eq(s[3:20], bare[i][3:20], "scales without distances")
        w, h = kw[i]["imgsz"]
        f = np.broadcast_to(kw[i]["f"], 2)
        for j, side in enumerate((w, h)):
            S.eq(s[3 + j], float(np.rad2deg(2 * np.arctan(side / 2 / f[j])) / side), "scale of angles: degrees per pixel", tol=1e-9)
        S.eq(s[8], s[9], "scale of focal length")
    far = [[L[0] * t[0], L[1] * t[1]] + ([L[2] * t[2]] if S.config.get("lines") else []), [L[0] * t[0]]]
    for i in range(2):
        mean = sum(far[i]) / len(far[i])
        f = float(np.mean(np.broadcast_to(kw[i]["f"], 2)))
        for j in range(3):
            S.eq(own[i][j] * f, mean, "scale of position: mean distance per focal length")
    # in order of parameters, mean of groups
    params = [{"xyz": 0}, {"c": 0, "xyz": [1, 2]}]
    gp = [{"f": 0, "viewdir": 2}, {"viewdir": 1}]
    gi = [[0, 1], [1, 0]]
    C[0].imgsz = C[1].imgsz = (10, 10)
    own = [Cameras.camera_scales(cam, controls) for cam in C]
    model = Cameras(cams=C, controls=controls, cam_params=params, group_indices=gi, group_params=gp, sparsity=False)
    what = order(S, C, [elements(p) for p in params], gi, [elements(p) for p in gp])
    S.check(model.scales.shape == (len(what),), "one scale for each parameter")
    for (idx, e), s in zip(what, model.scales):
        S.eq(s * len(idx), sum(own[i][e] for i in idx), "scales in order")
    S.reach()


def pixel(S):
    """Points displaced by the scale of a parameter move by about a pixel."""
    stubs(S)
    side = S.config["side"]
    f = S.real("f", side / 2, 2 * side)
    cam = glimpse.Camera(imgsz=(side, side), f=(f, f))
    s = Cameras.camera_scales(cam)
    # distance of pixels from the center, on average
    q = (np.arange(side) + 0.5) - side / 2
    R = float(np.hypot(q[:, None], q[None, :]).mean())
    near = lambda a, b, label: S.check(S.and_(a >= 0.99 * b, a <= 1.01 * b), label)
    near(s[8] * R, f, "focal length moves points at the mean distance by a pixel")
    near(s[5] * 2 * R * float(np.sin(np.deg2rad(0.5))), 1.0, "turning moves points at the mean distance by a pixel")
    for i in range(6, 8):
        moved = glimpse.Camera(imgsz=(side, side), f=(f, f))
        moved.imgsz = [side + (s[i] if j == i else 0) for j in (6, 7)] if not S.symbolic else S.array([side + (s[i] if j == i else 0) for j in (6, 7)])
        S.eq(moved.xyz_to_uv(S.array([[0.0, 1.0, 0.0]]))[0, i - 6] - side / 2, 1.0, "size moves the center by a pixel")
    r = R / f
    xyz = S.array([[r, 1.0, r]])
    base = cam.xyz_to_uv(xyz)[0]
    i = S.config["i"]
    kw = dict(k=S.array([s[12 + j] if j == i else 0.0 for j in range(6)])) if i < 6 else dict(p=S.array([s[18 + j] if j == i - 6 else 0.0 for j in range(2)]))
    d = glimpse.Camera(imgsz=(side, side), f=(f, f), **kw).xyz_to_uv(xyz)[0] - base
    far = d[0] * d[0] + d[1] * d[1]
    S.check(S.and_(far >= 1.25**2, far <= 3.0**2), "distortion moves points at the mean distance along both axes by about a pixel")
    S.reach()


def refused(S):
    """Definitions without a meaning are refused, others are not."""
    stubs(S)
    C = [glimpse.Camera(imgsz=(8, 6), f=2.5) for i in range(3)]
    size = S.concrete(S.choice("size", [(8, 6), (10, 6)]))
    C[1].imgsz = size
    same = size == (8, 6)
    P = [Points(cam=cam, uv=np.zeros((1, 2)), xyz=np.array([[0.0, 1.0, 0.0]])) for cam in C]
    X = Matches(cams=C[:2], uvs=np.ones((2, 1, 2)))
    names = ["viewdir", "c", "f"]
    part = S.config["part"]
    a, b = [names[S.concrete(S.int(q, 0, 2))] if part == "sizes" else "c" for q in ("a", "b")]

    def build(**k):
        return Cameras(scales=False, sparsity=False, **k)

    def expect(ok, fn, label):
        if ok:
            fn()
        else:
            S.raises(ValueError, fn, label)

    if part == "sizes":
        # sizes within each group
        gi = [[0, 1], [2]] if S.concrete(S.bool("together")) else [[0, 2], [1]]
        expect(same or gi[0] == [0, 2] or a == "viewdir", lambda: build(cams=C, controls=P, group_indices=gi, group_params=[{a: 0}, {b: 0}]), "image coordinates shared by images of different sizes")
        S.reach()
        return
    # cameras of several groups
    i, j = S.concrete(S.int("i", 0, 1)), S.concrete(S.int("j", 0, 1))
    over = S.concrete(S.bool("over"))
    gi = [[0, 1], [1, 2]] if over else [[0], [1, 2]]
    group = [{"viewdir": [2, i]}, {"viewdir": j}]
    clash = over and j == i
    expect(not clash, lambda: build(cams=C, controls=P, group_indices=gi, group_params=group), "parameters set by several groups")
    expect(not over, lambda: build(cams=C, controls=P, group_indices=[[0], [1], gi[0][1:] + [2]], group_params=[{"f": 1}, {"f": 1}, {"f": 1}]), "parameters set by several of three groups")
    # cameras without control
    expect(False, lambda: build(cams=C[2], controls=[P[0], P[1], X]), "no control of the cameras")
    expect(False, lambda: build(cams=C, controls=[X, P[1]], cam_params=[{}, {}, {b: 0}]), "parameters of cameras without control")
    expect(False, lambda: build(cams=C, controls=[X], group_params={"viewdir": 0}), "parameters of groups without control")
    build(cams=C, controls=[X], cam_params=[{"viewdir": 0}, {b: 1}, {}])
    build(cams=C[0], controls=X, cam_params={"f": 0})
    build(cams=C, controls=[X, P[2]], group_indices=[[0, 2]], group_params={"viewdir": 0})
    S.reach()


HARNESSES = [
    H("sparsity", sparsity, [
        dict(cams=[0, 1, 2], controls=["P(0)", "P(1, 2)", "X(0, 2)"], cam_params=[{"c": 0}, {"f": 1}, {"c": [0, 1]}]),
        dict(cams=[0, 1], controls=["P(2)", "X(1, 2)", "P(0)", "X(1, 0)"], cam_params=[{"c": 1}, {}], group_params=[{"f": 0}]),
        dict(cams=[2, 0, 1], controls=["P(0)", "X(0, 1)", "P(2)"], groups=[[0, 1], [2]], group_params=[{"c": 0}, {"f": 0}], cam_params=[{}, {"c": 1}, {"c": 0}]),
        dict(cams=[0, 1, 2], controls=["P(2)", "P(1)", "P(0)"], groups=[[1, 0], [2, 0]], group_params=[{"c": 0}, {"f": 0}])],
      bounds="2-3 cameras, 3-4 control sets, any parameter values"),
    H("pixel", pixel, [dict(side=800, i=i) for i in range(8)], bounds="a square image of 800 pixels, any focal length"),
    H("scales", scales, [dict(), dict(lines=True)], bounds="2 cameras, 3-4 world points at any distances"),
    H("refused", refused, [dict(part="sizes"), dict(part="groups")], bounds="3 cameras of 2 sizes, several groups, parameters and control"),
]
