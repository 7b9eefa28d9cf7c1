"""Calibration files and vectors of other software."""
import os
import shutil
import tempfile
import warnings

import numpy as np

from symx.runner import H

from glimpse.convert.cameras import Agisoft, Matlab, OpenCV, PhotoModeler
from glimpse.convert.cameras import agisoft, matlab, opencv, photomodeler
from props.numerals import Numerals

ASSUMPTIONS = ["float() reads the number written (symbolic runs look up numerals written for symbolic values; replays write the values)"]
SZ = (7, 5)


def written(fn):
    def run(S):
        root = tempfile.mkdtemp(prefix="glimpse-v03-")
        try:
            fn(S, os.path.join(root, "calibration"))
        finally:
            shutil.rmtree(root)

    run.__doc__ = fn.__doc__
    return run


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def compare(S, got, want):
    for k, v in want.items():
        g = getattr(got, k)
        if isinstance(v, tuple):
            S.eq(S.array(list(g)), S.array(list(v)), k)
        else:
            S.eq(g, v, k)


@written
def agisoft_xml(S, path):
    """Every parameter in the file, zero those absent."""
    num = Numerals(S, agisoft)
    names = ("f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2")
    there = S.config["there"]
    want = {n: S.real(n, -100, 100) if n in there else 0 for n in names}
    rows = ["<%s>%s</%s>" % (n, num(want[n]), n) for n in there]
    frame = S.config.get("projection", "frame")
    size = ["<projection>%s</projection>" % frame, "<width>7</width>", "<height>5</height>"]
    rows = rows + size if S.config.get("last") else size + rows
    text = "<calibration>\n%s\n<date>2020-05-06</date></calibration>" % "\n".join(rows)
    if S.config.get("nested"):
        text = "<document><sensor><f>1</f>%s</sensor></document>" % text
    write(path, '<?xml version="1.0" encoding="UTF-8"?>\n' + text)
    if frame != "frame":
        S.raises(ValueError, lambda: Agisoft.from_xml(path), "not a frame camera")
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cam = Agisoft.from_xml(path)
        S.check(tuple(cam.imgsz) == SZ, "image size")
        compare(S, cam, want)
    S.reach()


COEF = ("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4")


@written
def opencv_any(S, path):
    """Camera matrix and distortion coefficients, in OpenCV's order, from a file or arrays and back."""
    num = Numerals(S, opencv)
    fx, fy, cx, cy = [S.real(n, -100, 100) for n in ("fx", "fy", "cx", "cy")]
    n = S.config["n"]
    c = [S.real("d%d" % i, -2, 2) for i in range(n)]
    want = dict(fx=fx, fy=fy, cx=cx, cy=cy, **{k: c[i] if i < n else 0 for i, k in enumerate(COEF)})
    matrix = [[fx, 0.0, cx], [0.0, fy, cy], [0.0, 0.0, 1.0]]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if S.config["form"] == "xml":
            rows = " ".join(num(x) if i not in (1, 3, 6, 7, 8) else "%d." % x for i, x in enumerate(sum(matrix, [])))
            text = "<camera_matrix type_id='opencv-matrix'><rows>3</rows><cols>3</cols><dt>d</dt><data>\n %s</data></camera_matrix>" % rows.replace(" ", "\n", 3)
            if n:
                text += "<distortion_coefficients type_id='opencv-matrix'><rows>%d</rows><cols>1</cols><dt>d</dt><data>\n%s</data></distortion_coefficients>" % (
                    n, " ".join(map(num, c)).replace(" ", "\n  ", 2))
            write(path, '<?xml version="1.0"?>\n<opencv_storage>%s</opencv_storage>' % text)
            cam = OpenCV.from_xml(path, imgsz=SZ)
        elif S.config["form"] == "arrays":
            cam = OpenCV.from_arrays(S.array(matrix), S.array(c) if c else np.zeros(0), SZ)
        else:
            cam = OpenCV.from_arrays(matrix, tuple(c), SZ)
    S.check((n > 12) == any("not supported" in str(x.message) for x in w), "warns of unsupported coefficients")
    S.check(tuple(cam.imgsz) == SZ, "image size")
    compare(S, cam, want)
    S.eq(S.array([list(r) for r in cam.cameraMatrix]), S.array(matrix), "camera matrix")
    S.eq(S.array(list(cam.distCoeffs)), S.array([want[k] for k in COEF]), "distortion coefficients")
    S.reach()


@written
def matlab_report(S, path):
    """Means, or standard deviations (a third of the errors reported)."""
    num = Numerals(S, matlab)
    names = dict(fc=2, cc=2, alpha_c=0, kc=5)
    rows, want = [], {}
    for end in ("", "_error"):
        for n, m in names.items():
            v = [S.real("%s%s%d" % (n, end, i), -100, 100) for i in range(m or 1)]
            rows.append("%%-- %s:\n%s%s = %s;\n" % (n, n, end, "[ %s ]" % " ; ".join(map(num, v)) if m else num(v[0])))
            want[n + end] = tuple(v) if m else v[0]
    rows += ["%-- Image size:\nnx = 7;\nny = 5;\n"]
    if S.config["swap"]:
        rows = rows[4:] + rows[:4]
    write(path, "% Intrinsic and Extrinsic Camera Parameters\n%\n\n" + "\n".join(rows))
    cam = Matlab.from_report(path, sigmas=S.config["sigmas"])
    if S.config["sigmas"]:
        compare(S, cam, {n: tuple(x / 3 for x in want[n + "_error"]) if m else want[n + "_error"] / 3 for n, m in names.items()})
    else:
        S.check(tuple(cam.imgsz) == SZ, "image size")
        compare(S, cam, {n: want[n] for n in names})
    S.reach()


TITLES = dict(focal="Focal Length", xp="Xp - principal point x", yp="Yp - principal point y", fw="Fw - format width", fh="Fh - format height",
              k1="K1 - radial distortion 1", k2="K2 - radial distortion 2", k3="K3 - radial distortion 3",
              p1="P1 - decentering distortion 1", p2="P2 - decentering distortion 2")


@written
def photomodeler_report(S, path):
    """Values, or standard deviations (zero where the report has none)."""
    num = Numerals(S, photomodeler)
    text, mean, dev = "         Camera1: NIKON D300 [28.00]\n", {}, {}
    for n, title in TITLES.items():
        unit = " mm" if n in ("focal", "xp", "yp", "fw", "fh") else ""
        mean[n] = S.real(n, -100, 100)
        text += "            %s\n               Value: %s%s\n" % (title, num(mean[n]), unit)
        dev[n] = 0
        if n in S.config["dev"]:
            dev[n] = S.real("dev" + n, 0, 10)
            text += "               Deviation: %s: %s%s\n" % (title.split()[0], num(dev[n]), unit)
    write(path, "Status Report Tree\n\n" + text + "\nQuality\n   Photographs\n      Total Number: 12\n")
    cam = PhotoModeler.from_report(path, SZ, sigmas=S.config["sigmas"])
    S.check(tuple(cam.imgsz) == SZ, "image size")
    compare(S, cam, dev if S.config["sigmas"] else mean)
    S.reach()


ALL = ("f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2")
DEV = tuple(TITLES)
HARNESSES = [
    H("agisoft", agisoft_xml, [dict(there=ALL), dict(there=ALL[::-1], last=True), dict(there=("f", "k2", "p1", "b2")), dict(there=("f", "cy", "k4", "p2", "b1"), nested=True),
                               dict(there=("f",)), dict(there=("f",), projection="fisheye"), dict(there=("f", "k1"), projection="spherical", last=True), dict(there=(), projection="cylindrical", nested=True)], bounds="any numbers; layouts listed"),
    H("opencv", opencv_any, [dict(n=n, form=f) for f in ("xml", "arrays", "lists") for n in (0, 4, 5, 8, 12)] + [dict(n=14, form="arrays"), dict(n=14, form="xml")], bounds="up to 14 coefficients"),
    H("matlab", matlab_report, [dict(sigmas=s, swap=w) for s in (False, True) for w in (False, True)], bounds="any numbers"),
    H("photomodeler", photomodeler_report, [dict(sigmas=s, dev=d) for s in (False, True) for d in (DEV, ("focal", "k1", "p1"), ("fw", "k3", "p2"), ())], bounds="any numbers; deviations present as listed"),
]
