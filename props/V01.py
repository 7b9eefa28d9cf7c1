"""Camera models of other software: exact conversions and residuals."""
import numpy as np

from symx.runner import H

import glimpse
from glimpse.convert import Converter
from glimpse.convert.cameras import Agisoft, Matlab, OpenCV, PhotoModeler
from props.common import brown, camera

ASSUMPTIONS = [
    "iterative inversion of glimpse distortion is outside the claim: residuals of models projecting into "
    "the image are decided for cameras without distortion (any distortion for PhotoModeler)",
]
SZ = (7, 5)
RADIAL = dict(agisoft=("k1", "k2", "k3", "k4"), opencv=("k1", "k2", "k3", "k4", "k5", "k6"), photomodeler=("k1", "k2", "k3"))
OTHERS = dict(agisoft=("p1", "p2", "b1", "b2"), opencv=("p1", "p2", "s1", "s2", "s3", "s4"), photomodeler=("p1", "p2"))


def external(S, model, on, tag="x"):
    """An external camera with the named coefficients, others zero; a dict of all parameters."""
    def coef(name):
        return S.real(tag + name, -2, 2) if name in on else 0

    def f(name):
        return S.real(tag + name, 1, 100)

    def c(name, mid):
        return S.real(tag + name, mid - 4, mid + 4)

    if model == "agisoft":
        a = dict(f=f("f"), cx=c("cx", 0), cy=c("cy", 0), **{k: coef(k) for k in RADIAL[model] + OTHERS[model]})
        if "b1" in on:
            S.assume(a["f"] + a["b1"] >= 0.125)
        return Agisoft(imgsz=SZ, **a), a
    if model == "opencv":
        a = dict(fx=f("fx"), fy=f("fy"), cx=c("cx", 3.5), cy=c("cy", 2.5), **{k: coef(k) for k in RADIAL[model] + OTHERS[model]})
        return OpenCV(imgsz=SZ, **a), a
    if model == "matlab":
        a = dict(fc=(f("fc0"), f("fc1")), cc=(c("cc0", 3), c("cc1", 2)), kc=tuple(coef("kc%d" % i) for i in range(5)), alpha_c=coef("alpha_c"))
        return Matlab(imgsz=SZ, **a), a
    a = dict(focal=f("focal"), fw=S.real(tag + "fw", 2, 40), fh=S.real(tag + "fh", 2, 40), xp=c("xp", 6), yp=c("yp", 6),
             **{k: coef(k) for k in RADIAL[model] + OTHERS[model]})
    return PhotoModeler(imgsz=SZ, **a), a


def project(S, model, a, x, y):
    """Image coordinates of normalized camera coordinates, as the software documents."""
    r2 = x * x + y * y
    if model == "agisoft":
        dr = 1 + a["k1"] * r2 + a["k2"] * r2**2 + a["k3"] * r2**3 + a["k4"] * r2**4
        X = x * dr + a["p1"] * (r2 + 2 * x * x) + 2 * a["p2"] * x * y
        Y = y * dr + a["p2"] * (r2 + 2 * y * y) + 2 * a["p1"] * x * y
        return SZ[0] / 2 + a["cx"] + X * a["f"] + X * a["b1"] + Y * a["b2"], SZ[1] / 2 + a["cy"] + Y * a["f"]
    if model == "opencv":
        X, Y = brown(S, [a["k%d" % i] for i in range(1, 7)], [a["p1"], a["p2"]], x, y)
        X = X + a["s1"] * r2 + a["s2"] * r2**2
        Y = Y + a["s3"] * r2 + a["s4"] * r2**2
        return a["fx"] * X + a["cx"], a["fy"] * Y + a["cy"]
    if model == "matlab":
        kc = a["kc"]
        dr = 1 + kc[0] * r2 + kc[1] * r2**2 + kc[4] * r2**3
        X = x * dr + 2 * kc[2] * x * y + kc[3] * (r2 + 2 * x * x)
        Y = y * dr + kc[2] * (r2 + 2 * y * y) + 2 * kc[3] * x * y
        # pixel centers are at whole numbers, from 0
        return a["fc"][0] * (X + a["alpha_c"] * Y) + a["cc"][0] + 0.5, a["fc"][1] * Y + a["cc"][1] + 0.5


def unproject(S, a, x, y):
    """Normalized camera coordinates of PhotoModeler photo coordinates (mm from the principal point, y up)."""
    r2 = x * x + y * y
    dr = 1 + a["k1"] * r2 + a["k2"] * r2**2 + a["k3"] * r2**3
    X = x * dr + a["p1"] * (r2 + 2 * x * x) + 2 * a["p2"] * x * y
    Y = y * dr + a["p2"] * (r2 + 2 * y * y) + 2 * a["p1"] * x * y
    return X / a["focal"], -Y / a["focal"]


def of(model, xcam):
    """The parameters of a camera, by name."""
    names = dict(agisoft=("f", "cx", "cy"), opencv=("fx", "fy", "cx", "cy"), matlab=("fc", "cc", "kc", "alpha_c"),
                 photomodeler=("focal", "fw", "fh", "xp", "yp"))[model]
    return {k: getattr(xcam, k) for k in names + RADIAL.get(model, ()) + OTHERS.get(model, ())}


def no_fit(S):
    import glimpse.convert.converter as module

    def fail(*a, **k):
        raise AssertionError("optimized an exact conversion")

    S.patch(module.scipy.optimize, "least_squares", fail)


def safe(S, k, q):
    r2 = q[0] ** 2 + q[1] ** 2
    den = 1 + k[3] * r2 + k[4] * r2 * r2 + k[5] * r2**3
    S.assume(S.or_(den >= 2**-6, den <= -(2**-6)))


def exact(S):
    """Exact conversions, in both directions, image every point where the other camera does."""
    model, way = S.config["model"], S.config["way"]
    cls = dict(agisoft=Agisoft, opencv=OpenCV, matlab=Matlab, photomodeler=PhotoModeler)[model]
    no_fit(S)
    if way == "to":
        xcam, a = external(S, model, S.config["on"])
        cam = xcam.to_camera()
        S.eq(S.array(cam.imgsz), S.array(SZ), "image size")
    else:
        on = S.config["on"]
        k = [S.real(n, -2, 2) if n in on else 0 for n in ("k1", "k2", "k3", "k4", "k5", "k6")]
        p = [S.real(n, -2, 2) if n in on else 0 for n in ("p1", "p2")]
        if model == "photomodeler":
            cam = glimpse.Camera(imgsz=SZ, fmm=S.real("fmm", 1, 100), cmm=S.reals("cmm", 2, -4, 4), sensorsz=S.reals("sz", 2, 2, 40))
        else:
            cam = camera(S, imgsz=SZ, angles=False, pos=False, k=k, p=p)
        before = cam.to_array()
        xcam = cls.from_camera(cam)
        S.eq(cam.to_array(), before, "converting leaves the camera as it was")
        a = of(model, xcam)
        S.check(tuple(xcam.imgsz) == SZ, "image size")
    S.eq(cam.xyz, S.array([0.0, 0.0, 0.0]), "at the origin")
    S.eq(cam.viewdir, S.array([0.0, 0.0, 0.0]), "facing north")
    if model == "photomodeler":
        q = S.reals("mm", 2, -8, 8)
        u, v = (q[0] + a["xp"]) * SZ[0] / a["fw"], (a["yp"] - q[1]) * SZ[1] / a["fh"]
        x, y = unproject(S, a, q[0], q[1])
        got = cam.xyz_to_uv(S.array([[x, 1.0, -y]]))
    else:
        q = S.reals("q", 2, -2, 2)
        safe(S, list(cam.k), q)
        got = cam.xyz_to_uv(S.array([[q[0], 1.0, -q[1]]]))
        u, v = project(S, model, a, q[0], q[1])
    S.eq(got, S.array([[u, v]]), "the same image point", tol=1e-5)
    S.reach()


def roundtrip(S):
    """To another model and back, a camera is the same."""
    model, way = S.config["model"], S.config["way"]
    cls = dict(agisoft=Agisoft, opencv=OpenCV, matlab=Matlab, photomodeler=PhotoModeler)[model]
    no_fit(S)
    if way == "to":
        xcam, a = external(S, model, S.config["on"])
        back = of(model, cls.from_camera(xcam.to_camera()))
        for key in a:
            S.eq(S.array(np.atleast_1d(np.array(back[key], dtype=object)).tolist()),
                 S.array(np.atleast_1d(np.array(a[key], dtype=object)).tolist()), "the same " + key, tol=1e-5)
    else:
        on = S.config["on"]
        k = [S.real(n, -2, 2) if n in on else 0 for n in ("k1", "k2", "k3", "k4", "k5", "k6")]
        p = [S.real(n, -2, 2) if n in on else 0 for n in ("p1", "p2")]
        cam = camera(S, imgsz=SZ, angles=False, pos=False, k=k, p=p)
        S.eq(cls.from_camera(cam).to_camera().to_array(), cam.to_array(), "the same camera", tol=1e-5)
    S.reach()


def residuals(S):
    """Residuals are the glimpse camera's image points less the other's, of the same points."""
    model = S.config["model"]
    xcam, a = external(S, model, S.config["on"])
    n = S.config.get("n", 1)
    if model == "photomodeler":
        lens = S.config.get("lens", ())
        k = [S.real(n_, -2, 2) if n_ in lens else 0 for n_ in ("k1", "k2", "k3", "k4", "k5", "k6")]
        p = [S.real(n_, -2, 2) if n_ in lens else 0 for n_ in ("p1", "p2")]
        cam = camera(S, imgsz=SZ, angles=False, pos=False, k=k, p=p)
        q = S.reals("q", (n, 2), -8, 8)
        uv = S.array([[(q[i, 0] + a["xp"]) * SZ[0] / a["fw"], (a["yp"] - q[i, 1]) * SZ[1] / a["fh"]] for i in range(n)])
        got = Converter(xcam, cam, uv=uv).residuals()
        want = []
        for i in range(n):
            x, y = unproject(S, a, q[i, 0], q[i, 1])
            safe(S, k, (x, y))
            x, y = brown(S, k, p, x, y)
            want.append([x * cam.f[0] + 3.5 + cam.c[0] - uv[i, 0], y * cam.f[1] + 2.5 + cam.c[1] - uv[i, 1]])
    else:
        cam = camera(S, imgsz=SZ, angles=S.config.get("posed", False), pos=S.config.get("posed", False))
        q = S.reals("q", (n, 2), -2, 2)
        uv = S.array([[q[i, 0] * cam.f[0] + 3.5 + cam.c[0], q[i, 1] * cam.f[1] + 2.5 + cam.c[1]] for i in range(n)])
        want = []
        for i in range(n):
            if model == "opencv":
                safe(S, [a["k%d" % j] for j in range(1, 7)], q[i])
            u, v = project(S, model, a, q[i, 0], q[i, 1])
            want.append([uv[i, 0] - u, uv[i, 1] - v])
        got = Converter(xcam, cam, uv=uv).residuals()
    S.eq(got, S.array(want), "residuals", tol=1e-4)
    S.reach()


def grid(S):
    """A number of points stands for a regular grid, inset by half its spacing."""
    W, Hh = S.int("w", 1, 12), S.int("h", 1, 12)
    n = S.config["n"]
    d = S.sqrt(W * Hh / n)
    f = S.real("f", 1, 100)
    xcam = OpenCV(imgsz=(W, Hh), fx=f, fy=f)
    cam = glimpse.Camera(imgsz=(W, Hh), f=f)
    uv = Converter(xcam, cam, uv=n).uv
    S.check(uv.ndim == 2 and uv.shape[1] == 2, "points")
    sides = []
    for size, v in ((W, uv[:, 0]), (Hh, uv[:, 1])):
        v = sorted(set(float(x) for x in v))
        m = len(v)
        sides.append(m)
        S.check(m >= 1 and all(abs(x - (i + 0.5) * size / m) < 1e-9 for i, x in enumerate(v)), "evenly spaced, half a space from the edges")
        S.check(m == 1 or abs(m - size / d) <= 0.5 + 1e-9, "about square")
    S.check(len(uv) == sides[0] * sides[1] == len(set(map(tuple, np.asarray(uv, dtype=float).tolist()))), "every combination once")
    S.reach()


def sizes(S):
    """Cameras of different image sizes are refused."""
    w, h = S.int("w", 1, 12), S.int("h", 1, 12)
    w, h = S.concrete(w), S.concrete(h)
    cam = glimpse.Camera(imgsz=(w, h), f=S.real("f", 1, 100))
    xcam, _ = external(S, S.config["model"], ())
    if (w, h) == SZ:
        Converter(xcam, cam, uv=S.array([[1.0, 1.0]]))
    else:
        S.raises(ValueError, lambda: Converter(xcam, cam, uv=S.array([[1.0, 1.0]])), "different image sizes")
    S.reach()


def defaults(S):
    """A camera of which nothing but the focal length is known has no distortion, and its principal point at the center."""
    w, h = S.concrete(S.int("w", 1, 6)), S.concrete(S.int("h", 1, 6))
    fx = S.real("fx", 1, 100)
    model = S.config["model"]
    fy = fx if model == "agisoft" else S.real("fy", 1, 100)
    no_fit(S)
    xcam = dict(agisoft=lambda: Agisoft((w, h), fx), opencv=lambda: OpenCV((w, h), fx, fy), matlab=lambda: Matlab((w, h), (fx, fy)))[model]()
    S.eq(xcam.to_camera().to_array(), glimpse.Camera(imgsz=(w, h), f=(fx, fy)).to_array(), "the same camera")
    cam = glimpse.Camera(imgsz=(w, h), f=(fx, fy))
    S.eq(Converter(xcam, cam, uv=S.array([[w / 2, h / 2]])).residuals(), S.array([[0.0, 0.0]]), "the center")
    S.reach()


MODELS = ("agisoft", "matlab", "opencv", "photomodeler")
PASS = dict(agisoft=[("k1", "p1", "p2", "b1"), ("k2", "p1"), ("k3", "b1")],
            matlab=[("kc0", "kc2", "kc3"), ("kc1", "kc3"), ("kc4", "kc2")],
            opencv=[("k1", "k4", "p1", "p2"), ("k2", "k5", "p1"), ("k3", "k6", "p2")],
            photomodeler=[()])
RES = dict(agisoft=[("k1", "p1", "p2", "b1", "b2"), ("k2", "k4", "p1"), ("k3", "b2", "p2")],
           matlab=[("kc0", "kc2", "kc3", "alpha_c"), ("kc1", "kc3", "alpha_c"), ("kc4", "kc2")],
           opencv=[("k1", "k4", "p1", "p2", "s1", "s3"), ("k2", "k5", "s2"), ("k3", "k6", "s4")],
           photomodeler=[("k1", "p1", "p2"), ("k2", "p1"), ("k3", "p2")])
CAM = [("k1", "p1", "p2"), ("k2", "p1"), ("k3", "p2")]
OCAM = [("k1", "k4", "p1", "p2"), ("k2", "k5", "p1"), ("k3", "k6", "p2")]


def frm(model):
    return [()] if model == "photomodeler" else OCAM if model == "opencv" else CAM


EXACT = [dict(model=m, way="to", on=on) for m in MODELS for on in PASS[m]] + [dict(model=m, way="from", on=on) for m in MODELS for on in frm(m)]
ALLC = dict(agisoft=("k1", "k2", "k3", "p1", "p2", "b1"), matlab=tuple("kc%d" % i for i in range(5)),
            opencv=("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"), photomodeler=())
ROUND = [dict(model=m, way="to", on=ALLC[m]) for m in MODELS]
ROUND += [dict(model=m, way="from", on=("k1", "k2", "k3", "p1", "p2") + (("k4", "k5", "k6") if m == "opencv" else ())) for m in MODELS[:3]]
RESC = [dict(model=m, on=on) for m in MODELS for on in RES[m]]
RESC += [dict(model="photomodeler", on=("k1", "p2"), lens=("k1", "p1")), dict(model="photomodeler", on=(), lens=("k4", "k2")),
         dict(model="agisoft", on=("k1",), posed=True), dict(model="opencv", on=("s1",), n=2)]
HARNESSES = [
    H("exact", exact, EXACT, bounds="one image point within 2 of the optical axis; coefficients within 2 in magnitude, in groups"),
    H("roundtrip", roundtrip, ROUND, bounds="all coefficients of each model"),
    H("residuals", residuals, RESC, bounds="1-2 points; coefficients within 2, in groups"),
    H("grid", grid, [dict(n=n) for n in (1, 5)], thorough=[dict(n=n) for n in (1, 2, 3, 5, 7, 12, 50)], bounds="images to 12 x 12 pixels"),
    H("defaults", defaults, [dict(model=m) for m in MODELS[:3]], bounds="images to 6 x 6 pixels"),
    H("sizes", sizes, [dict(model=m) for m in MODELS], bounds="images to 12 x 12 pixels"),
]
