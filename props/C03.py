"""Histories of camera state changes."""
import itertools

import numpy as np

from symx.runner import H

import glimpse

FIELDS = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")


def make(S, imgsz=(3, 2)):
    v = dict(
        xyz=S.reals("xyz", 3, -50, 50), viewdir=S.reals("vd", 3, -180, 180),
        f=S.reals("f", 2, 1, 100), c=S.reals("c", 2, -4, 4),
        k=S.reals("k", 6, -1, 1), p=S.reals("p", 2, -1, 1),
    )
    cam = glimpse.Camera(imgsz=imgsz, **{k: x.copy() for k, x in v.items()})
    v["imgsz"] = S.array([int(imgsz[0]), int(imgsz[1])])
    return cam, v


def compare(S, cam, want, what, fields=FIELDS):
    for k in fields:
        S.eq(getattr(cam, k), want[k], "%s: %s" % (what, k))


def resized(S, want, base, size):
    """Everything in pixels is proportional to the image size."""
    out = dict(want)
    out["imgsz"] = S.array([size[0], size[1]])
    for key in ("f", "c"):
        out[key] = S.array([want[key][i] * size[i] / want["imgsz"][i] for i in range(2)])
    return out


def history(S):
    """Any sequence of operations: the state is what the operations say, in order."""
    orig = S.config.get("imgsz", (3, 2))
    cam, v = make(S, orig)
    base, want = dict(v), dict(v)
    others = []
    for i, op in enumerate(S.config["ops"]):
        if op == "resize":
            s = S.real("s%d" % i, 0.25, 2)
            new = [S.floori(s * orig[j] + 0.5) for j in range(2)]
            if "imgsz_ref" in want:
                ref = want["imgsz_ref"]
                new = [S.floori(s * ref[j] + 0.5) for j in range(2)]
            S.assume(S.and_(*[n >= 1 for n in new]))
            for j in range(2):
                # sizes at a rounding tie are not decided in floats
                r = s * (want.get("imgsz_ref", orig)[j]) + 0.5
                S.assume(S.and_(r - S.floor(r) >= 2**-20, r - S.floor(r) <= 1 - 2**-20))
            new = [S.concrete(n) for n in new]
            cam.resize(s)
            want = {**resized(S, want, base, new), **({"imgsz_ref": want["imgsz_ref"]} if "imgsz_ref" in want else {})}
        elif op == "force":
            new = [S.concrete(S.int("n%d_%d" % (i, j), 1, 4)) for j in range(2)]
            cam.resize(tuple(new), force=True)
            want = {**resized(S, want, base, new), **({"imgsz_ref": want["imgsz_ref"]} if "imgsz_ref" in want else {})}
        elif op == "double":
            ref = want.get("imgsz_ref", orig)
            cam.resize((2 * ref[0], 2 * ref[1]))
            want = {**resized(S, want, base, (2 * ref[0], 2 * ref[1])), **({"imgsz_ref": want["imgsz_ref"]} if "imgsz_ref" in want else {})}
        elif op == "original":
            ref = want.get("imgsz_ref", orig)
            cam.resize()
            want = {**resized(S, want, base, ref), **({"imgsz_ref": want["imgsz_ref"]} if "imgsz_ref" in want else {})}
        elif op == "reset":
            cam.reset()
            want = dict(base)
        elif op == "idealize":
            cam.idealize()
            want = {**want, "c": S.array([0.0, 0.0]), "k": S.array([0.0] * 6), "p": S.array([0.0] * 2)}
        elif op == "setf":
            f = S.reals("f_%d" % i, 2, 1, 100)
            cam.f = f
            want = {**want, "f": f.copy()}
        elif op == "inplace":
            d = S.real("d_%d" % i, -1, 1)
            cam.xyz[1] += d
            cam.k[2] = d
            want = {**want, "xyz": S.array([want["xyz"][0], want["xyz"][1] + d, want["xyz"][2]]),
                    "k": S.array([d if j == 2 else want["k"][j] for j in range(6)])}
        elif op == "copy":
            others.append((cam, dict(want)))
            cam = cam.copy()
            ref = tuple(int(n) for n in want["imgsz"])
            want = {k: x for k, x in want.items() if k != "imgsz_ref"}
            base = dict(want)
            want = {**want, "imgsz_ref": ref}
            base = {**base, "imgsz_ref": ref}
    compare(S, cam, want, "state after history")
    for o, w in others:
        compare(S, o, w, "camera left behind by a copy")
    arr = cam.to_array()
    S.eq(arr, np.concatenate([want[k] for k in FIELDS]), "vector of the state")
    arr[0] = arr[0] + 1
    S.eq(cam.xyz, want["xyz"], "the returned vector is a copy")
    S.reach()


def rejected(S):
    """A size that does not keep the aspect ratio is refused and changes nothing."""
    orig = (2, 2)
    cam, v = make(S, orig)
    S.patch(glimpse.helpers.scipy.optimize, "differential_evolution",
            lambda func, bounds, **kw: {"fun": 1, "x": 1.0})
    S.raises(ValueError, lambda: cam.resize((2, 3)), "aspect ratio is enforced")
    compare(S, cam, v, "refused resize")
    S.reach()


def millimeters(S):
    """Focal length and principal point in mm follow the sensor and image sizes."""
    imgsz = (6, 4)
    ss = S.reals("ss", 2, 1, 50)
    fmm, cmm = S.reals("fmm", 2, 1, 100), S.reals("cmm", 2, -5, 5)
    if S.config["how"] == "init":
        cam = glimpse.Camera(imgsz=imgsz, sensorsz=ss, fmm=fmm, cmm=cmm)
    elif S.config["how"] == "scalar":
        S.assume(S.and_(fmm[0] == fmm[1], cmm[1] == cmm[0]))
        cam = glimpse.Camera(imgsz=imgsz, sensorsz=ss, fmm=fmm[0], cmm=cmm[0])
    else:
        cam = glimpse.Camera(imgsz=imgsz, sensorsz=ss, f=1, c=1)
        cam.fmm = fmm
        cam.cmm = cmm
    for j in range(2):
        S.eq(cam.f[j], fmm[j] * imgsz[j] / ss[j], "focal length in pixels")
        S.eq(cam.c[j], cmm[j] * imgsz[j] / ss[j], "principal point in pixels")
    S.eq(cam.fmm, fmm, "fmm reads back")
    S.eq(cam.cmm, cmm, "cmm reads back")
    cam.resize(0.5)
    S.eq(cam.fmm, fmm, "fmm does not change with the image size")
    S.eq(cam.cmm, cmm, "cmm does not change with the image size")
    S.eq(cam.sensorsz, ss, "sensor size does not change with the image size")
    S.reach()


def refused(S):
    """Incomplete or contradictory definitions are refused."""
    G = glimpse.Camera
    S.raises(ValueError, lambda: G(imgsz=3), "focal length is required")
    S.raises(ValueError, lambda: G(imgsz=3, fmm=1), "fmm needs a sensor size")
    S.raises(ValueError, lambda: G(imgsz=3, f=1, cmm=1), "cmm needs a sensor size")
    S.raises(ValueError, lambda: G(imgsz=3, f=1, fmm=1, sensorsz=1), "f and fmm together")
    S.raises(ValueError, lambda: G(imgsz=3, f=1, c=1, cmm=1, sensorsz=1), "c and cmm together")
    s = S.real("size", 1, 8)
    S.assume(s != S.floor(s))
    S.raises(ValueError, lambda: G(imgsz=(3, s), f=1), "image size is whole")
    cam = G(imgsz=3, f=1)
    S.check(cam.fmm is None, "fmm unknown without sensor")
    S.check(cam.cmm is None, "cmm unknown without sensor")
    S.raises(ValueError, lambda: setattr(cam, "fmm", 1), "setting fmm needs a sensor size")
    S.raises(ValueError, lambda: setattr(cam, "cmm", 1), "setting cmm needs a sensor size")
    S.reach()


def formats(S):
    """Short vectors are completed as documented and arguments are left alone."""
    a, b = S.real("a", 1, 9), S.real("b", -9, 9)
    args = dict(f=[a], c=[b], k=[b, a], p=[b], xyz=[a, b], viewdir=[b])
    cam = glimpse.Camera(imgsz=[4], **args)
    S.check(args == dict(f=[a], c=[b], k=[b, a], p=[b], xyz=[a, b], viewdir=[b])
            and [len(v) for v in args.values()] == [1, 1, 2, 1, 2, 1], "arguments unchanged")
    S.eq(cam.imgsz, S.array([4, 4]), "image size")
    S.eq(cam.f, S.array([a, a]), "f repeats")
    S.eq(cam.c, S.array([b, 0.0]), "c is padded with zeros")
    S.eq(cam.k, S.array([b, a, 0.0, 0.0, 0.0, 0.0]), "k is padded with zeros")
    S.eq(cam.p, S.array([b, 0.0]), "p is padded with zeros")
    S.eq(cam.xyz, S.array([a, b, 0.0]), "xyz is padded with zeros")
    S.eq(cam.viewdir, S.array([b, 0.0, 0.0]), "viewdir is padded with zeros")
    S.reach()


def roundtrip(S):
    """Dictionaries (and the JSON read back) rebuild the camera."""
    cam, v = make(S)
    extra = S.config["attributes"]
    if extra:
        cam.sensorsz = S.reals("ss", 2, 1, 50)
    names = FIELDS if not extra else ("xyz", "viewdir", "imgsz", "fmm", "cmm", "sensorsz", "k", "p")
    d = cam.to_dict(names)
    S.check(list(d) == list(names), "attribute names")
    if S.config["json"]:
        if not extra:
            d["sensorsz"] = None
        S.patch(glimpse.helpers, "read_json", lambda path, **kw: dict(d))
        f = S.reals("f2", 2, 1, 100)
        cam2 = glimpse.Camera.from_json("x.json")
        if not extra:
            cam3 = glimpse.Camera.from_json("x.json", f=f)
            compare(S, cam3, {**v, "f": f}, "JSON with an override")
    else:
        cam2 = glimpse.Camera(**d)
    compare(S, cam2, v, "round trip")
    S.eq(cam2.to_array(), cam.to_array(), "same vector")
    S.reach()


def apart(S):
    """Copies share neither sensor size nor elevation corrections, and arguments are left alone."""
    r, q = S.real("radius", 1e6, 1e7), S.real("refraction", 0, 1)
    given = {"full": dict(radius=r, refraction=q), "part": dict(refraction=q), "other": dict(radius=r), "yes": True, "no": False}[S.config["given"]]
    keep = dict(given) if isinstance(given, dict) else given
    ss = S.reals("ss", 2, 1, 50)
    cam = glimpse.Camera(imgsz=(6, 4), fmm=10, sensorsz=ss, correction=given)
    S.check(given == keep if not isinstance(given, dict) else list(given) == list(keep), "argument unchanged")
    want = None
    if given is not False:
        want = dict(radius=6.3781e6, refraction=0.13)
        if isinstance(given, dict):
            want.update(keep)

    def same(c, w, size, what):
        S.eq(c.sensorsz, size, what + ": sensor size")
        if w is None:
            S.check(not c.correction, what + ": no corrections")
            return
        S.check(sorted(c.correction) == sorted(w), what + ": corrections")
        for k in w:
            S.eq(c.correction[k], w[k], what + ": " + k)

    same(cam, want, ss, "as given")
    size = ss.copy()
    if isinstance(given, dict):
        # the argument is the caller's
        given["refraction"] = 2.0
        same(cam, want, size, "as given, whatever the caller does next")
    other = cam.copy()
    same(other, want, size, "copy")
    a, b = S.real("a", 0, 1), S.reals("b", 2, 1, 50)
    first, second = (cam, other) if S.config.get("first") else (other, cam)
    if want is not None:
        first.correction["refraction"] = a
    if S.config.get("first"):
        first.sensorsz = b
    else:
        first.sensorsz[0], first.sensorsz[1] = b
    same(first, want and dict(want, refraction=a), b, "changed")
    same(second, want, size, "not changed")
    S.eq(second.fmm, [10.0, 10.0], "focal length in mm of the other")
    S.eq([first.fmm[i] * size[i] for i in range(2)], [10.0 * b[i] for i in range(2)], "focal length in mm of the changed one")
    S.reach()


OPS = ("resize", "force", "double", "reset", "idealize", "setf", "inplace", "copy")
QUICK = [
    ("resize",), ("force", "original"), ("copy", "double", "original"), ("resize", "resize"), ("resize", "reset"), ("copy", "resize"),
    ("resize", "copy", "reset"), ("idealize", "resize"), ("setf", "resize", "reset"),
    ("inplace", "reset"), ("inplace", "copy", "inplace"), ("inplace", "copy", "inplace", "reset"),
    ("force", "resize"), ("force", "copy", "reset"), ("force", "reset"), ("force", "double"),
    ("resize", "double"), ("setf", "resize"), ("reset", "inplace", "reset"),
    ("copy", "idealize"), ("idealize", "reset"), ("copy", "copy", "setf"),
]
HARNESSES = [
    H("history", history, [dict(ops=o) for o in QUICK],
      thorough=[dict(ops=o) for n in (2, 3) for o in itertools.product(OPS, repeat=n)
                if o.count("resize") + o.count("force") < 3] ,
      bounds="3x2 image, sequences of up to 4 (thorough: all of 3) of 8 operations, scales in [1/4,2]"),
    H("rejected", rejected, bounds="2x2 image"),
    H("millimeters", millimeters, [dict(how=h) for h in ("init", "scalar", "set")][:1] + [dict(how="set")], bounds="6x4 image"),
    H("refused", refused, bounds="missing or contradictory arguments"),
    H("apart", apart, [dict(given="full"), dict(given="part", first=True), dict(given="other"), dict(given="yes", first=True), dict(given="yes"), dict(given="no")], bounds="any corrections and sensor sizes"),
    H("formats", formats, bounds="short vectors"),
    H("roundtrip", roundtrip, [dict(json=j, attributes=a) for j in (False, True) for a in (False, True)], bounds="all parameters"),
]
