"""Image settings: from metadata, overridden by those given."""
import datetime
import itertools

import numpy as np

from symx.runner import H

import glimpse
import glimpse.exif as exif_module
from glimpse import Exif

ASSUMPTIONS = ["metadata are as decoded by piexif (numbers as numerators and denominators)"]
PATH = "/nonexistent/image.jpg"
GIVEN = ["imgsz", "f", "fmm", "sensorsz", "c", "cmm", "xyz"]


def builtins(S):
    """float() and int() of symbolic numbers stay symbolic in the parser."""
    if S.symbolic:
        from symx import core

        S.patch(exif_module, "float", lambda x: x if core.is_sym(x) else float(x))
        S.patch(exif_module, "int", lambda x: x if core.is_sym(x) else int(x))


def rational(S, name, lo, hi):
    """Numerator and denominator."""
    d = S.concrete(S.choice(name + "d", [1, 10, 3]))
    return S.int(name + "n", lo * d, hi * d), d


def metadata(S, model="NIKON D200", with_size=True):
    builtins(S)
    exif = Exif.__new__(Exif)
    tags = {"0th": {}, "Exif": {}}
    if model:
        tags["0th"].update(Make=b"NIKON CORPORATION ", Model=model.encode())
    nx, ny = S.concrete(S.int("nx", 4, 6)), S.concrete(S.int("ny", 3, 4))
    if with_size:
        tags["Exif"].update(PixelXDimension=nx, PixelYDimension=ny)
    n, d = rational(S, "fmm", 5, 50)
    tags["Exif"]["FocalLength"] = (n, d)
    tags["Exif"]["DateTimeOriginal"] = b"2014:10:13 02:03:36"
    exif.tags = tags
    return exif, (nx, ny), n, d


def tags(S):
    """Tags hold what was recorded, or nothing."""
    builtins(S)
    exif = Exif.__new__(Exif)
    exif.tags = {"0th": {}, "Exif": {}}
    E = exif.tags["Exif"]
    names = dict(exposure="ExposureTime", aperture="FNumber", fmm="FocalLength")
    want = {}
    for k, tag in names.items():
        if S.concrete(S.bool("has " + k)):
            n, d = rational(S, k, 1, 100)
            if k == S.config["unknown"]:
                # recorded as unknown or infinite
                E[tag] = (S.concrete(S.choice("zero", [0, 1])), 0)
                continue
            E[tag] = (n, d)
            want[k] = n, d
    if S.concrete(S.bool("has iso")):
        E["ISOSpeedRatings"] = want["iso"] = S.int("iso", 1, 6400)
    for k in names:
        got = getattr(exif, k)
        if k in want:
            n, d = want[k]
            S.eq(got * d, n, k)
        else:
            S.check(got is None, "no " + k)
    if "iso" in want:
        S.eq(exif.iso, want["iso"], "iso")
    else:
        S.check(exif.iso is None, "no iso")
    # size only if both
    w, h = S.int("w", 1, 9000), S.int("h", 1, 9000)
    hasw, hash_ = S.concrete(S.bool("has w")), S.concrete(S.bool("has h"))
    if hasw:
        E["PixelXDimension"] = w
    if hash_:
        E["PixelYDimension"] = h
    got = exif.imgsz
    if hasw and hash_:
        S.check(len(got) == 2, "size")
        S.eq(got[0], w, "width")
        S.eq(got[1], h, "height")
    else:
        S.check(got is None, "no size")
    S.check(exif.make is None and exif.model is None and exif.sensorsz is None and exif.datetime is None, "nothing else")
    S.reach()


CAMERAS = {("NIKON CORPORATION", "NIKON D200"): (23.6, 15.8), ("NIKON CORPORATION", "NIKON D2X"): (23.7, 15.7), ("Canon", "Canon EOS 40D"): (22.2, 14.8)}


def sensor(S):
    """The sensor size is that of the camera's make and model, if both are known."""
    exif = Exif.__new__(Exif)
    first, second = [list(dict.fromkeys(k[i] for k in CAMERAS)) for i in range(2)]
    got = []
    for name, known in (("make", first), ("model", second)):
        text = S.concrete(S.choice(name, list(range(len(known) + 2))))
        text = None if text == 0 else "other" if text == 1 else known[text - 2]
        pad = S.concrete(S.int(name + " before", 0, 1)), S.concrete(S.int(name + " after", 0, 2))
        got.append((text, pad))
    exif.tags = {"0th": {k: (" " * pad[0] + text + " " * pad[1]).encode() for k, (text, pad) in zip(("Make", "Model"), got) if text is not None}, "Exif": {}}
    want = CAMERAS.get((got[0][0], got[1][0]))
    S.check(exif.sensorsz == want, "sensor of make and model")
    for k, (text, pad) in zip(("make", "model"), got):
        v = getattr(exif, k)
        S.check(v is None if text is None else v.strip() == text, k)
    S.reach()


def instant(S):
    """The instant is that recorded, with any fraction of a second."""
    exif = Exif.__new__(Exif)
    fields = S.config["fields"]
    at = [S.concrete(S.int("field%d" % i, *fields[i])) if i in fields else v for i, v in enumerate((2014, 10, 13, 2, 3, 36))]
    text = "%04d:%02d:%02d %02d:%02d:%02d" % tuple(at)
    digits = S.config["digits"]
    exif.tags = {"0th": {}, "Exif": {"DateTimeOriginal": text.encode()}}
    fraction = [S.concrete(S.choice("digit%d" % i, d)) for i, d in enumerate(digits)]
    if digits or S.config.get("padded"):
        exif.tags["Exif"]["SubSecTimeOriginal"] = ("".join(map(str, fraction)) + " " * S.config.get("padded", 0)).encode()
    us = sum(d * 10 ** (5 - i) for i, d in enumerate(fraction[:6]))
    want = datetime.datetime(*at, us)
    S.check(exif.datetime == want, "instant recorded")
    img = glimpse.Image(PATH, cam=dict(imgsz=(3, 2), f=(1, 1)), exif=exif)
    S.check(img.datetime == want, "instant of the image")
    other = datetime.datetime(1999, 12, 31)
    img = glimpse.Image(PATH, cam=dict(imgsz=(3, 2), f=(1, 1)), exif=exif, datetime=other)
    S.check(img.datetime == other, "instant given")
    S.reach()


def settings(S):
    """Settings given override and supplement those of the metadata."""
    given = S.config["given"]
    exif, size, n, d = metadata(S, model=S.config.get("model", "NIKON D200"), with_size=S.config.get("with_size", True))
    sensor = {"NIKON D200": (23.6, 15.8), "NIKON D2X": (23.7, 15.7)}.get(S.config.get("model", "NIKON D200"))
    cam = {}
    if "imgsz" in given:
        size = cam["imgsz"] = S.concrete(S.int("gx", 2, 3)), S.concrete(S.int("gy", 5, 6))
    if "sensorsz" in given:
        sensor = cam["sensorsz"] = S.real("sx", 1, 50), S.real("sy", 1, 50)
    for k in ("f", "fmm", "c", "cmm", "xyz"):
        if k in given:
            m = 3 if k == "xyz" else 2
            cam[k] = tuple(S.real("%s%d" % (k, i), 1, 50) for i in range(m))
    before = dict(cam)
    when = datetime.datetime(2020, 1, 1) if S.config.get("when") else None
    used = S.config.get("read", True)
    if not used:
        S.patch(glimpse.image, "Exif", None)
    img = glimpse.Image(PATH, cam=cam, datetime=when, exif=exif if used else None)
    S.check(cam == before if not S.symbolic else all(cam[k] is before[k] for k in cam) and list(cam) == list(before), "settings given unchanged")
    S.check(tuple(int(v) for v in img.cam.imgsz) == tuple(size), "image size")
    if sensor is not None and ("sensorsz" in given or not ("imgsz" in given and "f" in given)):
        S.eq(img.cam.sensorsz, list(sensor), "sensor size")
    if "f" in given:
        S.eq(img.cam.f, list(cam["f"]), "focal length given")
    elif "fmm" in given:
        for i in range(2):
            S.eq(img.cam.f[i] * sensor[i], cam["fmm"][i] * size[i], "focal length given in mm")
    else:
        for i in range(2):
            S.eq(img.cam.f[i] * sensor[i] * d, n * size[i], "focal length of the metadata")
    for i in range(2):
        if "c" in given:
            S.eq(img.cam.c[i], cam["c"][i], "principal point given")
        elif "cmm" in given:
            S.eq(img.cam.c[i] * sensor[i], cam["cmm"][i] * size[i], "principal point given in mm")
        else:
            S.eq(img.cam.c[i], 0, "no principal point")
    if "xyz" in given:
        S.eq(img.cam.xyz, list(cam["xyz"]), "position given")
    S.check(img.datetime == (when or datetime.datetime(2014, 10, 13, 2, 3, 36)), "datetime given or of the metadata")
    S.eq(img.size, img.cam.imgsz, "size")
    # changes of the camera are not undone by those of the metadata
    img.cam.resize(2)
    S.check(tuple(int(v) for v in img.size) == (2 * size[0], 2 * size[1]), "size follows camera")
    S.reach()


def camera(S):
    """A camera is used as it is."""
    exif, size, n, d = metadata(S)
    cam = glimpse.Camera(imgsz=(7, 8), f=(S.real("f0", 1, 9), S.real("f1", 1, 9)))
    img = glimpse.Image(PATH, cam=cam, exif=exif)
    S.check(img.cam is cam and img.exif is exif, "camera and metadata given")
    S.check(img.datetime == datetime.datetime(2014, 10, 13, 2, 3, 36), "datetime of the metadata")
    uv = S.array([[S.real("u", -1, 9), S.real("v", -1, 9)]])
    S.eq(img.uv_to_xyz(uv), cam.uv_to_xyz(uv, directions=False), "points")
    S.eq(img.uv_to_xyz(uv, directions=True), cam.uv_to_xyz(uv, directions=True), "directions")
    S.eq(img.inbounds(uv), cam.inframe(uv), "in the image where in frame")
    S.reach()


def subsets():
    for k in range(0, 4):
        for g in itertools.combinations(GIVEN, k):
            if "f" in g and "fmm" in g or "c" in g and "cmm" in g:
                continue
            yield g


MAIN = [dict(given=g) for g in subsets() if "xyz" not in g] + [
    dict(given=("f", "imgsz"), model=None, read=False, when=True), dict(given=("fmm", "imgsz", "sensorsz"), model=None, read=False, when=True),
    dict(given=("f", "imgsz", "sensorsz", "xyz"), model=None, when=True), dict(given=("f",), model=None), dict(given=("fmm", "sensorsz"), model=None),
    dict(given=("sensorsz",), model=None), dict(given=("imgsz",), with_size=False), dict(given=("fmm", "xyz"), model="NIKON D2X", when=True)]

HARNESSES = [
    H("tags", tags, [dict(unknown=k) for k in (None, "exposure", "aperture", "fmm")], bounds="each tag present or not, any numerators, 3 denominators"),
    H("sensor", sensor, bounds="3 cameras, any other make or model, up to 2 spaces around"),
    H("instant", instant, [dict(fields={0: (1999, 2004), 1: (1, 12), 2: (1, 3)}, digits=[]), dict(fields={3: (0, 23), 4: (58, 59), 5: (0, 1)}, digits=[]),
                           dict(fields={5: (9, 10)}, digits=[list(range(10))]), dict(fields={}, digits=[list(range(10))] * 2), dict(fields={}, digits=[[0, 1, 9], [0, 4], [0, 7]]),
                           dict(fields={5: (0, 1)}, digits=[[0, 3], [0, 5]], padded=2), dict(fields={}, digits=[[0, 9], [9], [9], [9], [9], [0, 9], [1, 9], [5]]), dict(fields={}, digits=[], padded=1),
                           dict(fields={5: (0, 0)}, digits=[[0, 9], [0, 8], [0], [0, 3], [0], [0, 1]])],
      bounds="any of the fields and up to 8 digits of the fraction, padded or not, within ranges"),
    H("settings", settings, MAIN, bounds="any of the subsets of up to 3 settings, any values"),
    H("camera", camera, bounds="any focal length and image point"),
]
