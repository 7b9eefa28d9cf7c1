"""Cameras, objects and metadata written to files."""
import copy
import gzip
import json
import os
import pickle
import shutil
import tempfile
import types

import numpy as np

from symx.runner import H

import glimpse
from glimpse import Exif, helpers
import glimpse.exif as exif_module
from props.I02 import builtins

ASSUMPTIONS = [
    "json writes and reads back numbers as they are (symbolic runs write numerals in their place; replays write the values)",
    "piexif stores tags by code and reads them by name, as it documents (symbolic runs hold them in memory; replays write JPEG files)",
]


class Numbers:
    """json, with numerals written for symbolic numbers."""

    JSONDecodeError = json.JSONDecodeError

    def __init__(self, S):
        self.table, self.n = {}, 0
        if S.symbolic:
            S.patch(helpers, "json", self)

    def mark(self, x):
        from symx import core

        if isinstance(x, dict):
            return {self.mark(k): self.mark(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.mark(v) for v in x]
        if not core.is_sym(x):
            return x
        self.n += 1
        t = 902100 + self.n if isinstance(x, core.SymInt) else (90210 + self.n / 1024) * (-1) ** self.n
        self.table[repr(t)] = x
        return t

    def dumps(self, obj, **k):
        return json.dumps(self.mark(obj), **k)

    def dump(self, obj, fp, **k):
        fp.write(self.dumps(obj, **k))

    def loads(self, text, **k):
        k.setdefault("parse_float", lambda t: self.table[t] if t in self.table else float(t))
        k.setdefault("parse_int", lambda t: self.table[t] if t in self.table else int(t))
        return json.loads(text, **k)

    def load(self, fp, **k):
        return self.loads(fp.read(), **k)


def scratch(fn):
    def run(S):
        root = tempfile.mkdtemp(prefix="glimpse-v04-")
        try:
            fn(S, root)
        finally:
            shutil.rmtree(root)

    run.__name__ = fn.__name__
    return run


FIELDS = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")


@scratch
def camera(S, root):
    """A camera read from the file it was written to is the same camera."""
    Numbers(S)
    v = dict(xyz=S.reals("xyz", 3, -50, 50), viewdir=S.reals("vd", 3, -180, 180), f=S.reals("f", 2, 1, 100),
             c=S.reals("c", 2, -4, 4), k=S.reals("k", 6, -1, 1), p=S.reals("p", 2, -1, 1))
    kw = dict(S.config.get("options", {}))
    for n, i in S.config.get("holes", []):
        v[n][i] = np.nan
    size = None
    if S.config.get("sensorsz"):
        size = S.reals("sz", 2, 1, 40)
    cam = glimpse.Camera(imgsz=(3, 2), sensorsz=None if size is None else size.copy(), **{k: x.copy() for k, x in v.items()})
    names = list(FIELDS) + ["sensorsz"] if "sensorsz" in S.config else list(FIELDS)
    if "left" in S.config:
        names = [n for n in names if n not in S.config["left"]]
    if names != list(FIELDS):
        kw["attributes"] = names
    path = os.path.join(root, "a", "b", "cam.json") if S.config.get("folders") else os.path.join(root, "cam.json")
    S.check(cam.to_json(path, **kw) is None, "written to the file only")
    given = {}
    if S.config.get("given"):
        given = dict(xyz=S.reals("other", 3, -50, 50), imgsz=(6, 4))
    got = glimpse.Camera.from_json(path, **given)
    want = dict(v, imgsz=S.array([3, 2]))
    for n in S.config.get("left", []):
        want[n] = S.array(np.zeros(len(v[n])).tolist())
    if given:
        want.update(xyz=given["xyz"], imgsz=S.array([6, 4]))
    for n in FIELDS:
        S.eq(getattr(got, n), want[n], n)
    if size is None:
        S.check(got.sensorsz is None, "no sensor size")
    else:
        S.eq(got.sensorsz, size, "sensor size")
    for n in FIELDS:
        S.eq(getattr(cam, n), v[n] if n in v else S.array([3, 2]), "camera written: " + n)
    # as text, too
    text = cam.to_json(**kw)
    with open(os.path.join(root, "text"), "w") as f:
        f.write(text)
    again = glimpse.Camera.from_json(os.path.join(root, "text"), **given)
    S.eq(again.to_array(), got.to_array(), "from text")
    S.reach()


TEXT = ["a b", "c,d", 'q"[1, 2]" ', "[", "]}", "a\\", "\ttab", ":", "é "]


def build(S, kind):
    s = lambda i: S.concrete(S.choice("s%d" % i, TEXT))
    n = lambda i: S.real("n%d" % i, -9, 9)
    return {
        "strings": lambda: {"k": [s(0), s(1)]},
        "keys": lambda: {s(0): [n(0)], s(1) + "2": {"x": []}},
        "numbers": lambda: {"k": [n(0), S.int("i", -5, 5), True, None], "l": [[n(1), 2], [n(2), 1.5]]},
        "nested": lambda: [n(0), {"a": [n(1), [s(0), {"b": [n(2)]}]]}, [[[]]], [{}]],
        "mixed": lambda: [s(0), n(0), [s(1)]],
    }[kind]()


def equal(S, a, b, label):
    S.check(type(a) is type(b) or not isinstance(b, (dict, list, str, bool, type(None))), label + ": type")
    if isinstance(b, dict):
        S.check(list(a) == list(b), label + ": keys")
        for k in b:
            equal(S, a[k], b[k], label)
    elif isinstance(b, list):
        S.check(len(a) == len(b), label + ": length")
        for x, y in zip(a, b):
            equal(S, x, y, label)
    elif isinstance(b, (str, bool, type(None))):
        S.check(a == b, label + ": value")
    else:
        S.eq(a, b, label + ": number")


@scratch
def objects(S, root):
    """Objects written as JSON (however formatted) are read back."""
    Numbers(S)
    obj = build(S, S.config["kind"])
    kw = {}
    indent = S.concrete(S.choice("indent", [None, 0, 2, "\t"]))
    if indent is not None:
        kw["indent"] = indent
    if S.concrete(S.bool("flat")):
        kw["flat_arrays"] = True
    sep = S.concrete(S.choice("separators", ["none", "tight", "wide"]))
    if sep != "none":
        kw["separators"] = (",", ":") if sep == "tight" else (" , ", " : ")
    keep = copy.deepcopy(obj)
    path = os.path.join(root, "x", "obj.json")
    S.check(helpers.write_json(obj, path, **kw) is None, "written to the file only")
    equal(S, helpers.read_json(path), obj, "from file")
    equal(S, obj, keep, "object written")
    text = helpers.write_json(obj, **kw)
    with open(path) as f:
        S.check(f.read() == text or S.symbolic, "same text")
    if "flat_arrays" in kw and S.config["kind"] == "strings":
        S.check(len(text.splitlines()) == (1 if indent is None else 3), "arrays on one line")
    S.reach()


class Pickle:
    """pickle, with numerals written for symbolic numbers."""

    def __init__(self, S):
        self.S, self.table, self.n = S, {}, 0
        if S.symbolic:
            S.patch(helpers, "pickle", self)

    def mark(self, x):
        from symx import core

        if isinstance(x, dict):
            return {k: self.mark(v) for k, v in x.items()}
        if isinstance(x, tuple):
            return tuple(self.mark(v) for v in x)
        if isinstance(x, list):
            return [self.mark(v) for v in x]
        if not core.is_sym(x):
            return x
        self.n += 1
        t = 90210 + self.n / 1024
        self.table[t] = x
        return t

    def unmark(self, x):
        if isinstance(x, dict):
            return {k: self.unmark(v) for k, v in x.items()}
        if isinstance(x, tuple):
            return tuple(self.unmark(v) for v in x)
        if isinstance(x, list):
            return [self.unmark(v) for v in x]
        return self.table.get(x, x) if isinstance(x, float) else x

    def dump(self, obj, file, **k):
        pickle.dump(self.mark(obj), file, **k)

    def dumps(self, obj, **k):
        return pickle.dumps(self.mark(obj), **k)

    def load(self, file, **k):
        return self.unmark(pickle.load(file, **k))

    def loads(self, data, **k):
        return self.unmark(pickle.loads(data, **k))


@scratch
def pickles(S, root):
    """Objects pickled (compressed or not, binary or not) are read back."""
    Pickle(S)
    objs = [{"a": [S.real("x%d" % i, -9, 9), (S.real("y%d" % i, -9, 9), None)], 3: "b\n", "c": S.concrete(S.bool("b%d" % i))} for i in range(2)]
    gz, binary = S.concrete(S.bool("gz")), S.concrete(S.bool("binary"))
    kw = {} if not S.concrete(S.bool("protocol")) else dict(protocol=S.concrete(S.choice("number", [0, 2, 4])))
    path = os.path.join(root, "x", "y", "obj.pkl") if S.concrete(S.bool("folders")) else os.path.join(root, "obj.pkl")
    opts = {k: v for k, v in dict(gz=gz, binary=binary).items() if v is not (k == "binary")}
    for obj in objs:
        # (the last one written is the one read)
        S.check(helpers.write_pickle(obj, path, **opts, **kw) is None, "written")
        got = helpers.read_pickle(path, **opts)
        equal(S, got["a"][0], obj["a"][0], "from file")
        S.check(list(got) == ["a", 3, "c"] and got[3] == "b\n" and got["c"] is obj["c"] and len(got["a"]) == 2, "from file")
        S.check(type(got["a"][1]) is tuple and len(got["a"][1]) == 2 and got["a"][1][1] is None, "from file")
        equal(S, got["a"][1][0], obj["a"][1][0], "from file")
        with open(path, "rb") as f:
            data = f.read()
        S.check((data[:2] == b"\x1f\x8b") == gz, "compressed as asked")
        data = gzip.decompress(data) if gz else data
        if not kw and not binary:
            S.check(max(data) < 128, "text")
        if kw:
            n = kw["protocol"]
            S.check((data[0] != 0x80) if n == 0 else (data[0] == 0x80 and data[1] == n), "protocol asked")
    S.reach()


class Piexif:
    """piexif, holding tags in memory."""

    def __init__(self):
        import piexif

        self.real, self.files = piexif, {}
        for n in ("ImageIFD", "ExifIFD", "GPSIFD", "InteropIFD", "TAGS"):
            setattr(self, n, getattr(piexif, n))

    def dump(self, tags):
        for g, t in tags.items():
            if g != "thumbnail":
                for code in t:
                    if code not in self.TAGS[g]:
                        raise ValueError("unknown code")
        return ("bytes", copy.deepcopy(tags))

    def insert(self, data, path):
        self.files[path] = data[1]

    def load(self, path, key_is_name=False):
        out = {"0th": {}, "Exif": {}, "GPS": {}, "Interop": {}, "1st": {}, "thumbnail": None}
        for g, t in self.files.get(path, {}).items():
            out[g] = t if g == "thumbnail" else {self.TAGS[g][c]["name"] if key_is_name else c: copy.deepcopy(v) for c, v in t.items()}
        return out


@scratch
def metadata(S, root):
    """Tags inserted into an image are those read from it."""
    builtins(S)
    path = os.path.join(root, "photo.jpg")
    if S.symbolic:
        stub = Piexif()
        S.patch(exif_module, "piexif", stub)
    else:
        import cv2

        cv2.imwrite(path, np.zeros((4, 6, 3), dtype=np.uint8))
    has = lambda n: S.concrete(S.bool("has " + n))
    exif = Exif(path)
    S.check(exif.fmm is None and exif.imgsz is None and exif.datetime is None and exif.make is None, "no metadata yet")
    tags = {"0th": {}, "Exif": {}, "GPS": {}}
    w, h, iso = S.int("w", 1, 9000), S.int("h", 1, 9000), S.int("iso", 1, 6400)
    num, den = S.int("num", 1, 10000), S.concrete(S.choice("den", [1, 10]))
    if has("size"):
        tags["Exif"].update(PixelXDimension=w, PixelYDimension=h)
    if has("focal"):
        tags["Exif"]["FocalLength"] = (num, den)
        tags["Exif"]["ISOSpeedRatings"] = iso
    if has("camera"):
        tags["0th"].update(Make=b"NIKON CORPORATION", Model=b"NIKON D2X")
        tags["GPS"]["GPSAltitude"] = (num, 10)
    if has("interop"):
        tags["Interop"] = {"InteroperabilityIndex": b"R98"}
    exif.tags = tags
    keep = copy.deepcopy(tags)
    exif.insert(path)
    S.check({g: list(t) for g, t in exif.tags.items()} == {g: list(t) for g, t in keep.items()}, "tags unchanged")
    S.check(all(exif.tags[g][k] is tags[g][k] for g in tags for k in tags[g]), "tags unchanged")
    got = Exif(path)
    S.check("1st" not in got.tags and "thumbnail" not in got.tags, "no thumbnail")
    if "PixelXDimension" in tags["Exif"]:
        S.eq(list(got.imgsz), [w, h], "size")
    else:
        S.check(got.imgsz is None, "no size")
    if "FocalLength" in tags["Exif"]:
        S.eq(got.fmm * den, num, "focal length")
        S.eq(got.iso, iso, "iso")
    else:
        S.check(got.fmm is None and got.iso is None, "no focal length")
    if tags["0th"]:
        S.check(got.make == "NIKON CORPORATION" and got.model == "NIKON D2X" and got.sensorsz == (23.7, 15.7), "camera")
        S.eq(got.parse_tag("GPSAltitude", "GPS") * 10, num, "tags of other groups")
    else:
        S.check(got.make is None and got.sensorsz is None, "no camera")
    if "Interop" in tags:
        S.check(got.parse_tag("InteroperabilityIndex", group="Interop") == "R98", "tags of other groups")
    # thumbnails are kept if asked
    whole = Exif(path, thumbnail=True)
    S.check("1st" in whole.tags and "thumbnail" in whole.tags, "thumbnail kept")
    # refused, leaving the image
    wrong = S.concrete(S.choice("wrong", ["group", "tag", "other"]))
    got.tags = {"group": {"Unknown": {}}, "tag": {"Exif": {"Unknown": 0}}, "other": {"GPS": {"FocalLength": (1, 1)}}}[wrong]
    S.raises(ValueError, lambda: got.insert(path), "invalid tags")
    S.check((Exif(path).fmm is None) == ("FocalLength" not in tags["Exif"]), "image unchanged")
    S.reach()


HARNESSES = [
    H("camera", camera, [dict(), dict(options=dict(indent=4, flat_arrays=True), folders=True), dict(options=dict(flat_arrays=True), given=True), dict(sensorsz=True), dict(sensorsz=False, options=dict(indent=2)), dict(left=["c", "p"]), dict(holes=[["xyz", 1], ["k", 2], ["p", 0]]), dict(left=["xyz", "k"], sensorsz=True, options=dict(indent=0))],
      bounds="one camera of any parameters, 3x2 pixels, several formats"),
    H("objects", objects, [dict(kind=k) for k in ("strings", "keys", "numbers", "nested", "mixed")], bounds="5 structures of any numbers and 9 texts, 24 formats", witness=20, budget_s=120),
    H("pickles", pickles, bounds="2 objects of any numbers, every option, 3 protocols"),
    H("metadata", metadata, bounds="tags of 4 groups, any sizes, focal lengths and speeds"),
]
