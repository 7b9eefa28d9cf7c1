"""Control for cameras: points and matches."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from glimpse import optimize
from glimpse.optimize import Matches, Points, RotationMatches, RotationMatchesXY, RotationMatchesXYZ
from props.I03 import rotation

ASSUMPTIONS = ["cameras without lens distortion (their projection is decided by C01 and C02)"]
M = 2**-12
XYZ = (1.0, -2.0, 3.0)
FAR = (431250.0, 7100000.0, 512.0)


def pinhole(cam, rays, viewdir):
    """Image coordinates of rays, from the definition."""
    R = rotation(viewdir)
    out = []
    for ray in rays:
        q = [sum(float(R[i, j]) * ray[j] for j in range(3) if R[i, j]) for i in range(3)]
        out.append([cam["f"][i] * q[i] / q[2] + cam["imgsz"][i] / 2 + cam["c"][i] for i in range(2)])
    return out


def outward(cam, uv, viewdir):
    """Rays of image coordinates, from the definition (not normalized)."""
    R = rotation(viewdir).T
    out = []
    for p in uv:
        x = [(p[i] - cam["imgsz"][i] / 2 - cam["c"][i]) / cam["f"][i] for i in range(2)] + [1.0]
        out.append([sum(float(R[i, j]) * x[j] for j in range(3) if R[i, j]) for i in range(3)])
    return out


def pair(S, f=((2.0, 2.5), (4.0, 3.0)), c=((0.0, 0.25), (0.5, 0.0)), imgsz=((8, 6), (4, 6)), viewdir=((0, 0, 0), (0, 0, 0)), **k):
    kw = [dict(imgsz=imgsz[i], f=f[i], c=c[i], viewdir=viewdir[i], xyz=S.config.get("xyz", XYZ)) for i in range(2)]
    return kw, [glimpse.Camera(**kw[i]) for i in range(2)]


def coordinates(S, n, lo=0.5, hi=3.5):
    return [S.reals("uv%d" % i, (n, 2), lo, hi) for i in range(2)]


def points(S):
    """World points are where the camera sees them, image points follow its size."""
    n = S.config["n"]
    directions = bool(S.config.get("directions"))
    k = dict(imgsz=(8, 6), f=(S.real("f", 1, 9), 2.0), c=(0.25, S.real("c", -1, 1)), viewdir=S.config.get("viewdir", (0, 0, 0)), xyz=XYZ)
    cam = glimpse.Camera(**k)
    rays = outward(k, [[S.real("u%d" % i, 0, 8), S.real("v%d" % i, 0, 6)] for i in range(n)], k["viewdir"])
    depth = [S.concrete(S.choice("depth%d" % i, [1.0, 2.5])) for i in range(n)]
    xyz = [[r[j] * d + (0 if directions else XYZ[j]) for j in range(3)] for r, d in zip(rays, depth)]
    uv = [[S.real("ou%d" % i, 0, 8), S.real("ov%d" % i, 0, 6)] for i in range(n)]
    given = S.array(uv), S.array(xyz)
    kept = given[0].copy(), given[1].copy()
    P = Points(cam=cam, uv=given[0], xyz=given[1], directions=directions)
    S.check(P.size == n, "size")
    idx = S.config.get("index", slice(None))
    sel = list(np.arange(n)[idx])
    want = pinhole(k, rays, k["viewdir"])
    S.eq(P.predicted(index=idx), [want[i] for i in sel], "predicted")
    S.eq(P.observed(index=idx), [uv[i] for i in sel], "observed")
    S.eq(P.predicted(), want, "predicted, all")
    # sizes
    for step in S.config.get("steps", []):
        if step[0] == "camera":
            cam.resize(*step[1:])
        else:
            P.resize(*step[1:])
    if S.config.get("steps"):
        P.resize()
        s = [int(a) / b for a, b in zip(cam.imgsz, (8, 6))]
        S.eq(P.observed(), [[p[0] * s[0], p[1] * s[1]] for p in uv], "observed at the size of the camera")
        S.eq(P.predicted(), [[p[0] * s[0], p[1] * s[1]] for p in want], "predicted at the size of the camera")
    # position
    cam.xyz[S.concrete(S.int("axis", 0, 2))] += 1
    if directions:
        S.raises(ValueError, lambda: P.predicted(), "directions seen from elsewhere")
    else:
        P.predicted()
    S.eq(given[0], kept[0], "arguments unchanged")
    S.eq(given[1], kept[1], "arguments unchanged")
    S.raises(ValueError, lambda: Points(cam=cam, uv=uv, xyz=xyz + xyz[:1]), "different numbers of points")
    S.reach()


def matches(S):
    """All kinds of matches predict the same, before and after changes."""
    n = S.config["n"]
    vd = S.config.get("viewdir", ((0, 0, 0), (0, 0, 0)))
    f = ((2.0, S.real("f", 1, 4) if S.config.get("f") else 2.5), (4.0, 3.0))
    k, cams = pair(S, f=f, viewdir=vd)
    uvs = coordinates(S, n)
    if S.config.get("fixed"):
        # rotated rays of unit length are decided for some points only
        uvs = [S.array([S.concrete(S.choice("at%d" % i, [[1.5, 2.0], [3.25, 0.5], [2.0, 3.0]]))]) for i in range(2)]
    kept = [uv.copy() for uv in uvs]
    idx = S.config.get("index", slice(None))
    sel = list(np.arange(n)[idx])
    late = S.config.get("late")
    kinds = [KINDS[q] for q in S.config["kinds"]]
    made = [kind(cams=cams, uvs=uvs) for kind in kinds]
    if late:
        # cameras turned after
        vd = late
        for cam, v in zip(cams, vd):
            cam.viewdir = v
    rays = [outward(k[i], uvs[i], vd[i]) for i in range(2)]
    for r, v in zip(rays, reversed(vd)):
        for x in r:
            R = rotation(v)[2]
            ahead = sum(float(R[i]) * x[i] for i in range(3) if R[i])
            if isinstance(ahead, float):
                if ahead < M:
                    return
            else:
                S.assume(ahead >= 2**-6)
    for kind, m in zip(kinds, made):
        S.check(m.size == n, "size")
        for c in range(2):
            which = cams[c] if S.config.get("object") else c
            o = 1 - c
            to = pinhole(k[c], rays[o], vd[c])
            xy = lambda i, p: [(p[j] - k[i]["imgsz"][j] / 2 - k[i]["c"][j]) / k[i]["f"][j] for j in range(2)]
            if kind in (Matches, RotationMatches):
                S.eq(m.observed(which, index=idx), [kept[c][i] for i in sel], "observed")
                S.eq(m.predicted(which, index=idx), [to[i] for i in sel], "predicted")
            elif kind is RotationMatchesXY:
                S.eq(m.observed(which, index=idx), [xy(c, kept[c][i]) for i in sel], "observed camera coordinates")
                S.eq(m.predicted(which, index=idx), [xy(c, to[i]) for i in sel], "predicted camera coordinates")
            else:
                got = m.predicted(which, index=idx)
                S.check(tuple(got.shape) == (len(sel), 3), "rays")
                for g, i in zip(got, sel):
                    w = rays[c][i]
                    S.eq(g[0]**2 + g[1]**2 + g[2]**2, 1, "rays of unit length")
                    for a, b in ((0, 1), (1, 2), (0, 2)):
                        S.eq(g[a] * w[b], g[b] * w[a], "predicted rays")
                    S.check(g[0] * w[0] + g[1] * w[1] + g[2] * w[2] > 0, "predicted rays ahead")
    for uv, w in zip(uvs, kept):
        S.eq(uv, w, "arguments unchanged")
    S.reach()


def changes(S):
    """Matches are refused when cameras have changed in ways they do not allow."""
    k, cams = pair(S)
    uvs = coordinates(S, 1)
    kinds = [Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ]
    made = [kind(cams=cams, uvs=uvs) for kind in kinds]
    scale = S.config.get("scale", 1)
    by = S.real("by", 0.125, 0.25) * scale
    changed = S.concrete(S.choice("changed", ["f", "c", "k", "p", "imgsz", "xyz"]))
    which = S.concrete(S.int("which", 0, 1))
    cam = cams[which]
    if changed == "imgsz":
        cam.imgsz = [(10, 6), (8, 10)][S.concrete(S.int("element", 0, 1))]
    else:
        getattr(cam, changed)[S.concrete(S.int("element", 0, dict(k=5, xyz=2).get(changed, 1)))] += by if changed in ("c", "xyz") else 0.125 * scale
    for kind, m in zip(kinds, made):
        for c in range(2):
            if changed == "xyz" or kind is not Matches:
                S.raises(ValueError, lambda: m.predicted(c), "cameras changed")
            elif changed == "f":
                m.predicted(c)
    if changed == "xyz":
        S.raises(ValueError, lambda: Matches(cams=cams, uvs=uvs), "cameras apart")
    S.reach()


def same_camera(S):
    """Cameras are told apart by identity."""
    n = 2
    k, cams = pair(S, f=((2.0, 2.0),) * 2, c=((0.0, 0.0),) * 2, imgsz=((8, 6),) * 2)
    uvs = coordinates(S, n)
    for kind in (Matches, RotationMatches):
        m = kind(cams=cams, uvs=uvs)
        for c in range(2):
            S.eq(m.observed(cams[c]), uvs[c], "observed by each camera")
            S.eq(m.predicted(cams[c]), uvs[1 - c], "predicted for each camera")
        S.raises(IndexError, lambda: m.observed(2), "no such camera")
        S.raises(ValueError, lambda: kind(cams=[cams[0], cams[0]], uvs=uvs), "one camera")
        S.raises(ValueError, lambda: kind(cams=cams, uvs=[uvs[0], uvs[1][1:]]), "different numbers of points")
    S.reach()


def resize(S):
    """Matched points follow the sizes of their cameras."""
    k, cams = pair(S, imgsz=((8, 6), (4, 12)))
    uvs = coordinates(S, 2)
    kept = [uv.copy() for uv in uvs]
    m = Matches(cams=cams, uvs=uvs)
    before = [m.predicted(c) for c in range(2)]
    for step in S.config["steps"]:
        if step[0] == "camera":
            cams[step[1]].resize(*step[2:])
        else:
            m.resize(*step[1:])
    m.resize()
    for c in range(2):
        s = [int(a) / b for a, b in zip(cams[c].imgsz, k[c]["imgsz"])]
        S.eq(m.observed(c), [[p[0] * s[0], p[1] * s[1]] for p in kept[c]], "observed at the size of the camera")
        S.eq(m.predicted(c), [[p[0] * s[0], p[1] * s[1]] for p in before[c]], "predicted at the size of the camera")
        S.eq(uvs[c], kept[c], "arguments unchanged")
    S.reach()


KINDS = dict(M=Matches, R=RotationMatches, XY=RotationMatchesXY, XYZ=RotationMatchesXYZ)


def convert(S):
    """Converting matches keeps their cameras, points and weights."""
    n = 2
    k, cams = pair(S)
    uvs = coordinates(S, n)
    w = S.reals("w", (n,), 0.5, 9) if S.config.get("weights") else None
    path = S.config["path"]
    start = KINDS[path[0]]
    xys = [S.array([[(p[j] - k[i]["imgsz"][j] / 2 - k[i]["c"][j]) / k[i]["f"][j] for j in range(2)] for p in uvs[i]]) for i in range(2)]
    kw = dict(xys=xys) if S.config.get("xys") else dict(uvs=uvs)
    m = start(cams=cams, weights=w, **kw)
    for step in path[1:]:
        if step == "clear":
            m.uvs = None
            continue
        m = m.to_type(KINDS[step])
        S.check(type(m) is KINDS[step], "type")
    S.check(m.cams[0] is cams[0] and m.cams[1] is cams[1] and m.size == n, "cameras and size")
    if w is None:
        S.check(m.weights is None, "no weights")
    else:
        S.eq(m.weights, w, "weights")
    for c in range(2):
        if isinstance(m, RotationMatchesXYZ):
            got = m.predicted(c)
            for g, p in zip(got, xys[c]):
                # cameras look north
                S.eq(g[0], g[1] * p[0], "points")
                S.eq(g[2], -g[1] * p[1], "points")
        else:
            S.eq(m.observed(c), (xys if isinstance(m, RotationMatchesXY) else uvs)[c], "points")
            to = pinhole(k[c], outward(k[1 - c], uvs[1 - c], (0, 0, 0)), (0, 0, 0))
            if isinstance(m, RotationMatchesXY):
                to = [[(p[j] - k[c]["imgsz"][j] / 2 - k[c]["c"][j]) / k[c]["f"][j] for j in range(2)] for p in to]
            S.eq(m.predicted(c), to, "predicted points")
    S.reach()


def filtered(S):
    """Exactly the matches within limits are kept, with their points and weights."""
    n = S.config["n"]
    kind = KINDS[S.config["kind"]]
    by = S.config["by"]
    k, cams = pair(S)
    uvs = coordinates(S, n)
    if S.config.get("given"):
        # those of one camera at fixed places
        uvs[1 - S.config.get("cam", 0)] = S.array(([[4.5, 3.5], [3.0, 2.75]] if S.config.get('cam') else [[1.25, 2.5], [3.0, 0.75]])[:n])
    w = S.reals("w", (n,), 0.5, 9) if S.config.get("weights") else None
    m = kind(cams=cams, uvs=uvs, weights=w)
    c = S.config.get("cam", 0)
    o = 1 - c
    kw, keep = {}, [True] * n
    away = lambda x: S.assume(S.abs(x) >= M)
    if "n_best" in by:
        nb = kw["n_best"] = S.concrete(S.int("n_best", 0, n + 1))
        for i, j in itertools.combinations(range(n), 2):
            away(w[i] - w[j])
        rank = [sum(int(bool(w[j] > w[i])) for j in range(n) if j != i) for i in range(n)]
        keep = [r < nb for r in rank]
    if "min_weight" in by:
        lim = kw["min_weight"] = S.real("min_weight", 0, 9)
        for i in range(n):
            away(w[i] - lim)
            keep[i] = keep[i] and bool(w[i] >= lim)
    width = k[c]["imgsz"][0]
    scaled = bool(S.config.get("scaled"))
    if scaled:
        kw["scaled"] = True
    if "max_error" in by:
        lim = kw["max_error"] = S.real("max_error", 0, 2)
        to = pinhole(k[c], outward(k[o], uvs[o], (0, 0, 0)), (0, 0, 0))
        for i in range(n):
            if keep[i]:
                d2 = (to[i][0] - uvs[c][i][0])**2 + (to[i][1] - uvs[c][i][1])**2
                l2 = (lim * (width if scaled else 1))**2
                away(d2 - l2)
                keep[i] = bool(d2 <= l2)
    if "max_distance" in by:
        lim = kw["max_distance"] = S.real("max_distance", 0, 4)
        s = [a / b for a, b in zip(k[c]["imgsz"], k[o]["imgsz"])]
        for i in range(n):
            if keep[i]:
                d2 = (uvs[o][i][0] * s[0] - uvs[c][i][0])**2 + (uvs[o][i][1] * s[1] - uvs[c][i][1])**2
                l2 = (lim * (width if scaled else 1))**2
                away(d2 - l2)
                keep[i] = bool(d2 <= l2)
    if c:
        kw["cam"] = cams[c] if S.config.get("object") else c
    whole = kind(cams=cams, uvs=uvs, weights=w)
    if S.config.get("clear"):
        m.uvs = None
    m.filter(**kw)
    sel = [i for i in range(n) if keep[i]]
    S.check(m.size == len(sel), "number of matches kept")
    for i in range(2):
        if kind is not RotationMatchesXYZ:
            a = m.observed(i)
            S.check(len(a) == len(sel), "observed of the matches kept")
            if sel:
                S.eq(a, whole.observed(i)[sel], "observed of the matches kept")
        p = m.predicted(i)
        S.check(len(p) == len(sel), "predicted of the matches kept")
        if sel:
            S.eq(p, whole.predicted(i)[sel], "predicted of the matches kept")
    if w is not None:
        S.check(len(m.weights) == len(sel), "weights of the matches kept")
        if sel:
            S.eq(m.weights, w[sel], "weights of the matches kept")
    S.raises(ValueError, lambda: kind(cams=cams, uvs=uvs).filter(min_weight=1), "no weights")
    S.reach()


HARNESSES = [
    H("points", points, [
        dict(n=2, index=[1]), dict(n=2, directions=True, viewdir=(90, 0, 0)), dict(n=1, viewdir=(20, -30, 10), index=[0, 0]),
        dict(n=1, steps=[("points", 0.5), ("camera", 1)]), dict(n=1, steps=[("camera", 2), ("points", 0.5), ("points", (16, 12))], directions=True),
        dict(n=1, steps=[("camera", 0.5), ("points",), ("points", (4, 6), True)])],
      bounds="1-2 points, any focal length and image points, several view directions and sequences of sizes"),
    H("matches", matches, [
        dict(n=2, index=[1], kinds=["M", "XY"], f=True), dict(n=2, index=slice(0, 1), kinds=["R"], f=True), dict(n=1, kinds=["XYZ"]),
        dict(n=1, viewdir=((0, 0, 0), (90, 0, 90)), late=((90, 0, 0), (90, 0, 90)), object=True, kinds=["M", "R", "XY"]),
        dict(n=1, viewdir=((0, 0, 0), (90, 0, 0)), late=((90, 0, 0), (90, 0, 90)), kinds=["XYZ"], fixed=True),
        dict(n=1, viewdir=((10, 20, 0), (20, 10, 5)), kinds=["M"]), dict(n=1, viewdir=((10, 20, 0), (20, 10, 5)), kinds=["R"]), dict(n=1, viewdir=((10, 20, 0), (20, 10, 5)), kinds=["XY"]),
        dict(n=2, late=((0, 0, 90), (0, 0, 0)), kinds=["R", "XY"])],
      bounds="1-2 matched points, any image points (and a focal length), several view directions"),
    H("changes", changes, [{}, dict(xyz=FAR), dict(scale=2**-17)], bounds="any change of each parameter of either camera"),
    H("same_camera", same_camera, bounds="2 matched points"),
    H("resize", resize, [dict(steps=[("m", 0.5)]), dict(steps=[("camera", 1, 2), ("m",), ("camera", 0, 0.5), ("m", 1)]), dict(steps=[("camera", 0, 0.5)]),
                         dict(steps=[("camera", 0, (16, 6), True)]), dict(steps=[("m", (4, 6), True), ("camera", 1, (4, 3), True)])], bounds="2 matched points, sequences of sizes"),
    H("convert", convert, [dict(path=p, weights=bool(i % 2)) for i, p in enumerate([
        ("M", "R"), ("M", "XY"), ("M", "XYZ"), ("M", "M"), ("R", "XY", "R"), ("R", "M"), ("XY", "XYZ", "M"), ("XYZ", "XY", "R"), ("XY", "clear", "M"), ("XY", "clear", "XYZ", "R"), ("XYZ", "clear", "XY")])]
      + [dict(path=p, xys=True, weights=True) for p in [("XY",), ("XYZ", "M"), ("R", "XYZ"), ("R", "M"), ("XY", "R")]],
      bounds="2 matched points, any conversions of a set of sequences"),
    H("filtered", filtered, [
        dict(n=3, kind="M", by=["n_best"], weights=True), dict(n=2, kind="R", by=["min_weight"], weights=True),
        dict(n=3, kind="XY", by=["n_best"], weights=True), dict(n=2, kind="XYZ", by=["n_best", "min_weight"], weights=True), dict(n=2, kind="XY", by=["min_weight"], weights=True, clear=True),
        dict(n=2, kind="M", by=["max_error"], given=True), dict(n=2, kind="R", by=["max_error"], given=True, weights=True, cam=1), dict(n=2, kind="M", by=["max_distance"], cam=1, object=True, weights=True),
        dict(n=2, kind="M", by=["max_distance"], scaled=True), dict(n=2, kind="M", by=["max_error"], given=True, scaled=True, cam=1),
        dict(n=2, kind="R", by=["n_best", "max_distance"], weights=True), dict(n=1, kind="M", by=["min_weight", "max_error", "max_distance"], given=True, weights=True)],
      bounds="2-3 matched points with any weights and limits", timeout_ms=3000),
]
