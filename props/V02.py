"""Fitting camera models to each other: what is optimized, and what results."""
import numpy as np

from symx.runner import H

import glimpse
import glimpse.convert.converter as module
from glimpse.convert import Converter
from glimpse.convert.cameras import Agisoft, Matlab, OpenCV, PhotoModeler
from props.common import brown
from props.V01 import SZ, of, project, unproject

ASSUMPTIONS = ["scipy.optimize.least_squares evaluates the residuals anywhere, then returns any point"]
NAMES = dict(agisoft=("f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2"),
             opencv=("fx", "fy", "cx", "cy", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s1", "s2", "s3", "s4"),
             matlab=("fc", "cc", "kc", "alpha_c"),
             photomodeler=("focal", "fw", "fh", "xp", "yp", "k1", "k2", "k3", "p1", "p2"))
LENS = dict(f=(6, 8), c=(8, 10), k=(12, 18), p=(18, 20), xyz=(0, 3), viewdir=(3, 6))
CLS = dict(agisoft=Agisoft, opencv=OpenCV, matlab=Matlab, photomodeler=PhotoModeler)
SIZE = dict(fc=2, cc=2, kc=5)


def distinct(S, names, tag, zero=(), big=()):
    """Values in disjoint ranges, so that none is mistaken for another."""
    out = {}
    for i, n in enumerate(names):
        lo = (16 + i) if n in big else (i + 1) / 32
        out[n] = 0 if n in zero else S.real(tag + n, lo, lo + (0.5 if n in big else 1 / 64))
    return out


def flat(model):
    return [n if n not in SIZE else "%s%d" % (n, i) for n in NAMES[model] for i in range(SIZE.get(n, 1))]


def build(model, v):
    a = {n: v[n] if n not in SIZE else tuple(v["%s%d" % (n, i)] for i in range(SIZE[n])) for n in NAMES[model]}
    return CLS[model](imgsz=SZ, **a), a


def flatten(model, xcam):
    out = {}
    for n in NAMES[model]:
        v = np.atleast_1d(np.array(getattr(xcam, n), dtype=object))
        for i in range(len(v)):
            out[n if n not in SIZE else "%s%d" % (n, i)] = v[i]
    return out


BIG = ("f", "fx", "fy", "fc0", "fc1", "focal", "fw", "fh", "xp", "yp", "f0", "f1")
def off(model, on):
    """Coefficients that are zero."""
    lens = [n for n in flat(model) if n[0] in "kpsb" or n == "alpha_c"]
    return [n for n in lens if n not in on]


VEC = ["f0", "f1", "c0", "c1"] + ["k%d" % i for i in range(6)] + ["p0", "p1"]


def glimpse_camera(v, **k):
    return glimpse.Camera(imgsz=SZ, f=(v["f0"], v["f1"]), c=(v["c0"], v["c1"]), k=tuple(v["k%d" % i] for i in range(6)), p=(v["p0"], v["p1"]), **k)


def camvec(cam):
    """Named values of a camera's internal parameters."""
    out = {}
    for n in "fckp":
        for i, x in enumerate(getattr(cam, n)):
            out["%s%d" % (n, i)] = x
    return out


def expand(params, sizes):
    """Names selected, as documented."""
    out = []
    for key, sel in params.items():
        names = ["%s%d" % (key, i) for i in range(sizes[key])] if sizes[key] > 1 else [key]
        if sel is True:
            out += names
        elif sel is not False and sel is not None:
            out += [names[i] for i in np.atleast_1d(np.asarray(sel, dtype=int))]
    return out


class Fit:
    """Stands in for the optimizer: any trials, then any result."""

    def __init__(self, S, start, selected, trials=0, residual=None, kwargs=None):
        self.S, self.start, self.selected, self.trials, self.residual = S, start, selected, trials, residual
        self.kwargs, self.calls, self.result = kwargs or {}, 0, None
        S.patch(module.scipy.optimize, "least_squares", self)

    def __call__(self, fun, x0, *args, **kwargs):
        S = self.S
        self.calls += 1
        S.check(not args and kwargs == self.kwargs, "options are passed on")
        left, names = list(self.selected), []
        for x in x0:
            hit = next((n for n in left if S.same(x, self.start[n])), None)
            S.check(hit is not None, "starts from the values of the parameters selected")
            if hit is None:
                left, names = [], None
                break
            left.remove(hit)
            names.append(hit)
        S.check(not left, "every parameter selected is optimized")
        for t in range(self.trials):
            v = self.values("t%d" % t, names)
            got = fun(S.array([v[n] for n in names]))
            want = self.residual({**self.start, **v})
            S.eq(S.array(got).reshape(-1), S.array(want).reshape(-1), "residuals of the trial", tol=1e-4)
        self.result = self.values("r", names)
        return type("result", (), dict(x=S.array([self.result[n] for n in names])))

    def values(self, tag, names):
        return {n: self.S.real(tag + n, 1, 40) if n in BIG else self.S.real(tag + n, -1, 1) for n in names}


def final(S, fit, got):
    """Selected parameters have the values found, the rest those they had."""
    S.check(fit.calls == 1, "optimized once")
    want = {**fit.start, **fit.result}
    for n in want:
        S.eq(got[n], want[n], ("result of " if n in fit.result else "unselected ") + n)


def cam_side(S):
    """optimize_cam: the cam's selected parameters only, by its residuals."""
    model, params = S.config["model"], {k: tuple(v) if S.config.get("tuples") and isinstance(v, (list, tuple)) else v for k, v in S.config["params"]}
    on = S.config.get("lens", ())
    x = distinct(S, flat(model), "x", zero=off(model, S.config["on"]), big=BIG)
    xcam, a = build(model, x)
    v = distinct(S, VEC, "c", zero=[n for n in VEC if n[0] in "kp" and n not in on], big=BIG)
    cam = glimpse_camera(v, xyz=(1, 2, 3), viewdir=(10, 20, 30))
    if model == "photomodeler":
        q = S.reals("q", 2, -4, 4)
        uv = S.array([[(q[0] + a["xp"]) * SZ[0] / a["fw"], (a["yp"] - q[1]) * SZ[1] / a["fh"]]])
        X, Y = unproject(S, a, q[0], q[1])

        def residual(v):
            x, y = brown(S, [v["k%d" % i] for i in range(6)], [v["p0"], v["p1"]], X, Y)
            return [x * v["f0"] + 3.5 + v["c0"] - uv[0, 0], y * v["f1"] + 2.5 + v["c1"] - uv[0, 1]]
    else:
        uv = S.reals("uv", (1, 2), 0, 7)

        def residual(v):
            q = (uv[0, 0] - 3.5 - v["c0"]) / v["f0"], (uv[0, 1] - 2.5 - v["c1"]) / v["f1"]
            u = project(S, model, a, q[0], q[1])
            return [uv[0, 0] - u[0], uv[0, 1] - u[1]]

    converter = Converter(xcam, cam, uv=uv)
    fit = Fit(S, v, expand(params, dict(f=2, c=2, k=6, p=2)), S.config.get("trials", 0), residual, dict(max_nfev=7))
    converter.optimize_cam(params, max_nfev=7)
    final(S, fit, camvec(converter.cam))
    S.check(converter.cam is cam and converter.xcam is xcam, "the cameras of the converter")
    S.eq(cam.xyz, S.array([1.0, 2.0, 3.0]), "position")
    S.eq(cam.viewdir, S.array([10.0, 20.0, 30.0]), "view direction")
    S.eq(cam.imgsz, S.array(SZ), "image size")
    got = flatten(model, xcam)
    for n in x:
        S.eq(got[n], x[n], "the other camera's " + n)
    S.reach()


def xcam_side(S):
    """optimize_xcam: the external camera's selected parameters only, by its residuals."""
    model, params = S.config["model"], {k: v for k, v in S.config["params"]}
    x = distinct(S, flat(model), "x", zero=off(model, S.config["on"]), big=BIG)
    xcam, a = build(model, x)
    v = distinct(S, VEC, "c", zero=[n for n in VEC if n[0] in "kp"], big=BIG)
    cam = glimpse_camera(v)
    before = cam.to_array()
    if model == "photomodeler":
        uv = S.reals("uv", (1, 2), 0, 7)

        def residual(x):
            X, Y = unproject(S, x, uv[0, 0] * x["fw"] / SZ[0] - x["xp"], x["yp"] - uv[0, 1] * x["fh"] / SZ[1])
            return [X * v["f0"] + 3.5 + v["c0"] - uv[0, 0], Y * v["f1"] + 2.5 + v["c1"] - uv[0, 1]]
    else:
        q = S.reals("q", 2, -2, 2)
        uv = S.array([[q[0] * v["f0"] + 3.5 + v["c0"], q[1] * v["f1"] + 2.5 + v["c1"]]])

        def residual(x):
            u = project(S, model, build(model, x)[1], q[0], q[1])
            return [uv[0, 0] - u[0], uv[0, 1] - u[1]]

    converter = Converter(xcam, cam, uv=uv)
    fit = Fit(S, x, expand(params, {n: SIZE.get(n, 1) for n in NAMES[model]}), S.config.get("trials", 0), residual, dict(max_nfev=7))
    converter.optimize_xcam(params, max_nfev=7)
    final(S, fit, flatten(model, converter.xcam))
    S.check(converter.xcam is xcam and tuple(xcam.imgsz) == SZ, "image size")
    S.eq(cam.to_array(), before, "the other camera")
    S.reach()


def to_camera(S):
    """Converting an inexact camera optimizes what the documentation says, or asks."""
    model, on, opt = S.config["model"], S.config["on"], S.config["optimize"]
    x = distinct(S, flat(model), "x", zero=off(model, on), big=BIG)
    xcam, a = build(model, x)
    start = camvec(xcam.to_camera(optimize=False))
    opt = {k: v for k, v in opt} if isinstance(opt, (list, tuple)) else opt
    doc = dict(
        agisoft=["f", "c", "k"] if "b2" in on else ["k"] if "k4" in on else [],
        matlab=["f", "c", "k", "p"] if "alpha_c" in on else [],
        opencv=["k", "p"] if any(n[0] == "s" for n in on) else [],
        photomodeler=(["k"] if any(n[0] == "k" for n in on) else []) + (["p"] if any(n[0] == "p" for n in on) else []),
    )[model]
    params = {n: True for n in doc} if opt is True else opt if opt and doc else {}
    fit = Fit(S, start, expand(params, dict(f=2, c=2, k=6, p=2)), kwargs=dict(max_nfev=7))
    got = camvec(xcam.to_camera(optimize=opt, uv=S.array([[1.0, 2.0]]), max_nfev=7))
    if params:
        final(S, fit, got)
    else:
        S.check(fit.calls == 0, "exact, so not optimized")
        for n in start:
            S.eq(got[n], start[n], "initial " + n)
    after = flatten(model, xcam)
    for n in x:
        S.eq(after[n], x[n], "converting leaves " + n)
    S.reach()


def from_camera(S):
    """Converting a camera that is inexact in a model optimizes what the documentation says, or asks."""
    model, on, opt = S.config["model"], S.config["on"], S.config["optimize"]
    v = distinct(S, VEC, "c", zero=[n for n in VEC if n[0] in "kp" and n not in on], big=BIG)
    if model == "photomodeler":
        if S.config.get("square"):
            v["f1"] = v["f0"]
        cam = glimpse_camera(v, sensorsz=(14, 10))
    else:
        cam = glimpse_camera(v)
    before = cam.to_array()
    cls = CLS[model]
    start = flatten(model, cls.from_camera(cam, optimize=False))
    opt = {k: w for k, w in opt} if isinstance(opt, (list, tuple)) else opt
    rational = any(n in on for n in ("k3", "k4", "k5"))
    doc = dict(
        agisoft=["k1", "k2", "k3"] if rational else [],
        matlab=["kc"] if rational else [],
        photomodeler=([] if S.config.get("square") else ["focal", "fw", "fh", "xp", "yp"])
        + (["k1", "k2", "k3"] if any(n[0] == "k" for n in on) else []) + (["p1", "p2"] if any(n[0] == "p" for n in on) else []),
    )[model]
    params = {n: True for n in doc} if opt is True else opt if opt and doc else {}
    fit = Fit(S, start, expand(params, {n: SIZE.get(n, 1) for n in NAMES[model]}), kwargs=dict(max_nfev=7))
    got = flatten(model, cls.from_camera(cam, optimize=opt, uv=S.array([[1.0, 2.0]]), max_nfev=7))
    if params:
        final(S, fit, got)
    else:
        S.check(fit.calls == 0, "exact, so not optimized")
        for n in start:
            S.eq(got[n], start[n], "initial " + n)
    S.eq(cam.to_array(), before, "converting leaves the camera as it was")
    S.reach()


def needed(S):
    """A conversion is optimized exactly when some coefficient without an equivalent is not zero, whatever its sign or the others."""
    model, to, free = S.config["model"], S.config["to"], S.config["free"]
    w = {n: S.real(n, -1, 1) for n in free}
    for n in free:
        S.assume(S.or_(w[n] == 0, w[n] >= 2**-6, w[n] <= -(2**-6)))
    names = flat(model) if to else VEC
    v = {n: w.get(n, (16 + i) if n in BIG else 0) for i, n in enumerate(names)}
    if model == "photomodeler" and not to:
        v["f1"] = v["f0"]
    calls = []

    def fit(fun, x0, *args, **kwargs):
        calls.append(len(x0))
        return type("result", (), dict(x=S.array(list(x0))))

    S.patch(module.scipy.optimize, "least_squares", fit)
    uv = S.array([[1.0, 2.0]])
    if to:
        build(model, v)[0].to_camera(uv=uv)
    else:
        CLS[model].from_camera(glimpse_camera(v, **(dict(sensorsz=(14, 10)) if model == "photomodeler" else {})), uv=uv)
    on = {n for n in free if w[n] != 0}
    k, q = any(n[0] == "k" for n in on), any(n[0] == "p" for n in on)
    if to:
        want = dict(agisoft=10 if "b2" in on else 6 if "k4" in on else 0, matlab=12 if on else 0, opencv=8 if on else 0, photomodeler=6 * k + 2 * q)
    else:
        want = dict(agisoft=3 if on else 0, matlab=5 if on else 0, photomodeler=3 * k + 2 * q)
    S.check(calls == ([want[model]] if want[model] else []), "optimized if a coefficient has no equivalent")
    S.reach()


NEED = [dict(model="agisoft", to=True, free=("k4", "b2")), dict(model="matlab", to=True, free=("alpha_c",)), dict(model="opencv", to=True, free=("s1", "s2")),
        dict(model="opencv", to=True, free=("s2", "s3", "s4")), dict(model="photomodeler", to=True, free=("k1", "k3")), dict(model="photomodeler", to=True, free=("p1", "p2")),
        dict(model="photomodeler", to=True, free=("k2", "p1")), dict(model="agisoft", to=False, free=("k3", "k4", "k5")), dict(model="matlab", to=False, free=("k3", "k4", "k5")),
        dict(model="photomodeler", to=False, free=("k0", "k1", "k3")), dict(model="photomodeler", to=False, free=("p0", "p1")), dict(model="photomodeler", to=False, free=("k5", "p1"))]


def L(**k):
    return [[a, b] for a, b in k.items()]


CAMS = [dict(model="photomodeler", on=("k1", "p1"), lens=("k0",), params=L(k=True, f=0), trials=0),
        dict(model="photomodeler", on=("k1",), lens=("k0", "p1"), params=L(c=1, p=[0, 1]), trials=1),
        dict(model="photomodeler", on=(), lens=("k0",), params=L(k=0, f=True), trials=2),
        dict(model="photomodeler", on=(), lens=("k3",), params=L(k=[3, 0], p=False), trials=0),
        dict(model="agisoft", on=("b1",), params=L(f=True, c=True), trials=1),
        dict(model="agisoft", on=("b2",), params=L(f=1, c=[0]), trials=1),
        dict(model="matlab", on=("kc0",), params=L(k=[0, 2], p=0), trials=0),
        dict(model="opencv", on=("s1",), params=L(c=[1, 0]), trials=2),
        # an iterable of three indices is not an index and bounds
        dict(model="photomodeler", on=("k1",), lens=("k0",), params=L(k=[0, 1, 2]), trials=0, tuples=True),
        dict(model="photomodeler", on=(), lens=("k3",), params=L(k=[3, 0], f=[1]), trials=0, tuples=True)]
XCAMS = [dict(model="agisoft", on=("k1", "b2"), params=L(f=True, k1=True), trials=1),
         dict(model="agisoft", on=("p1", "k4"), params=L(cx=True, k4=True, p1=True, b1=False), trials=1),
         dict(model="matlab", on=("kc0", "kc2", "alpha_c"), params=L(kc=True), trials=1),
         dict(model="matlab", on=("kc1", "kc3"), params=L(kc=[3, 1], cc=1), trials=1),
         dict(model="matlab", on=("kc1", "kc3"), params=L(kc=0, fc=0, cc=True), trials=2),
         dict(model="opencv", on=("s1", "k1"), params=L(s1=True, s2=True, fx=0), trials=1),
         dict(model="photomodeler", on=("k1",), params=L(focal=True, k1=True, xp=True), trials=1),
         dict(model="photomodeler", on=("k1",), params=L(fw=[0], yp=0, p2=None), trials=1)]
TO = [dict(model="agisoft", on=("k1", "k4"), optimize=True), dict(model="agisoft", on=("b2", "p1"), optimize=True),
      dict(model="agisoft", on=("b2", "k4"), optimize=True), dict(model="agisoft", on=("b2", "k4"), optimize=False),
      dict(model="agisoft", on=("b2", "k4"), optimize=L(k=[1, 2], c=0)), dict(model="agisoft", on=("b1", "k1", "p1"), optimize=L(k=[1])),
      dict(model="matlab", on=("alpha_c", "kc0"), optimize=True), dict(model="matlab", on=("kc0", "kc4"), optimize=True), dict(model="matlab", on=("alpha_c",), optimize=L(f=[1])),
      dict(model="opencv", on=("s1",), optimize=True), dict(model="opencv", on=("s2", "k1"), optimize=True), dict(model="opencv", on=("s3",), optimize=L(p=1)),
      dict(model="opencv", on=("s4",), optimize=True), dict(model="opencv", on=("k6", "p1"), optimize=True),
      dict(model="photomodeler", on=("k1",), optimize=True), dict(model="photomodeler", on=("p2",), optimize=True), dict(model="photomodeler", on=("k3", "p1"), optimize=True),
      dict(model="photomodeler", on=("k2",), optimize=False), dict(model="photomodeler", on=(), optimize=True)]
FROM = [dict(model="agisoft", on=("k0", "k3"), optimize=True), dict(model="agisoft", on=("k5", "p0"), optimize=True), dict(model="agisoft", on=("k0", "p1"), optimize=True),
        dict(model="agisoft", on=("k4",), optimize=L(k1=0, p1=True)), dict(model="agisoft", on=("k4",), optimize=False),
        dict(model="matlab", on=("k3", "k1"), optimize=True), dict(model="matlab", on=("k4",), optimize=L(kc=[0, 1, 4])), dict(model="matlab", on=("k5",), optimize=True),
        dict(model="photomodeler", on=("k0",), square=True, optimize=True), dict(model="photomodeler", on=("p0",), square=True, optimize=True),
        dict(model="photomodeler", on=("k5", "p1"), optimize=True), dict(model="photomodeler", on=(), optimize=True),
        dict(model="photomodeler", on=(), square=True, optimize=True), dict(model="photomodeler", on=("k1",), optimize=L(k1=True, fw=True))]
HARNESSES = [
    H("cam", cam_side, CAMS, bounds="one image point; the optimizer tries up to 2 points"),
    H("xcam", xcam_side, XCAMS, bounds="one image point; the optimizer tries up to 2 points"),
    H("to-camera", to_camera, TO, bounds="every documented case, and selections"),
    H("needed", needed, NEED, bounds="up to 3 coefficients of any sign and value, or zero"),
    H("from-camera", from_camera, FROM, bounds="every documented case, and selections"),
]
