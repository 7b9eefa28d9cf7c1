"""Vertices of svg elements."""
import itertools

import numpy as np

from symx.runner import H

import glimpse.svg as svg
from glimpse.svg import Points
from props.numerals import Numerals

ASSUMPTIONS = ["float() reads the number written (symbolic runs look up numerals written for symbolic values; replays write the values)"]
NARGS = dict(m=2, l=2, t=2, h=1, v=1, c=6, s=4, q=4, a=7, z=0)
STYLES = ("comma", "space", "tight")


def text(num, cmds, style):
    """Path data: commands and their numbers."""
    out = []
    for c, pairs in cmds:
        t = c
        for i, args in enumerate(pairs):
            ns = [num(x) for x in args]
            for j, n in enumerate(ns):
                if i == j == 0:
                    t += {"comma": "", "space": " ", "tight": ""}[style]
                elif style == "tight" and n[0] == "-":
                    pass
                elif style == "comma" and j % 2:
                    t += ","
                else:
                    t += {"comma": " ", "space": " \n ", "tight": ","}[style]
                t += n
        out.append(t)
    return {"comma": " ".join(out), "space": "\n " + "  ".join(out) + " ", "tight": "".join(out)}[style]


def vertices(cmds):
    """Vertices of a path, as the svg specification interprets it."""
    xy, cur, start = [], (0, 0), (0, 0)
    for c, pairs in cmds:
        rel = c.islower()
        k = c.lower()
        if k == "z":
            cur = start
            xy.append(cur)
        for i, a in enumerate(pairs):
            dx, dy = cur if rel else (0, 0)
            if k == "h":
                cur = (dx + a[0], cur[1])
            elif k == "v":
                cur = (cur[0], dy + a[0])
            else:
                cur = (dx + a[-2], dy + a[-1])
            if k == "m" and i == 0:
                start = cur
            xy.append(cur)
    return xy


def same(S, got, want, label):
    S.check(len(got) == len(want) and all(len(p) == 2 for p in got), label + ": number of points")
    if want and len(got) == len(want):
        S.eq(S.array([list(p) for p in got]), S.array([list(p) for p in want]), label)


def path(S):
    """Any sequence of commands, absolute or relative, is followed vertex by vertex."""
    num = Numerals(S, svg, exp="E")
    cmds = []
    letters = list(S.config.get("fixed", ""))
    for i in range(S.config["n"]):
        if i < len(letters):
            c = letters[i]
        else:
            c = S.choice("c%d" % i, list("mM") if i == 0 else list("mMlLhHvVzZ") if S.config.get("lines") else list("mMlLtThHvVcCsSqQaAzZ"))
        k = NARGS[c.lower()]
        reps = 0 if k == 0 else S.config.get("reps", [1])[i % len(S.config.get("reps", [1]))]
        pairs = [[S.real("p%d_%d_%d" % (i, r, j), -10, 10) for j in range(k)] for r in range(reps)]
        cmds.append((c, pairs or ([] if k == 0 else [[]])))
    d = text(num, cmds, S.config["style"])
    got = Points.from_element("path", d=d).xy
    same(S, got, vertices(cmds), "vertices")
    S.reach()


def elements(S):
    """Other elements: their documented points, absent coordinates being zero."""
    num = Numerals(S, svg, exp="E")
    tag = S.config["tag"]
    n = S.config.get("n", 2)
    if tag in ("polyline", "polygon"):
        xy = [tuple(p) for p in S.reals("xy", (n, 2), -10, 10)]
        got = Points.from_element(tag, points=S.config.get("sep", " ").join("%s,%s" % (num(x), num(y)) for x, y in xy), fill="none").xy
        closed = n < 2 or bool(S.and_(xy[0][0] == xy[-1][0], xy[0][1] == xy[-1][1]))
        want = xy if tag == "polyline" or closed else xy + xy[:1]
    else:
        names = dict(line=("x1", "y1", "x2", "y2"), circle=("cx", "cy"), rect=("x", "y", "width", "height"), image=("x", "y", "width", "height"))
        if tag == "svg":
            v = S.reals("v", 4, -10, 10)
            got = Points.from_element("svg", viewBox=S.config["sep"].join(map(num, v))).xy
            a = dict(zip(names["rect"], v))
        else:
            there = S.config.get("there", names[tag])
            a = {k: S.real(k, 0 if k in ("width", "height") else -10, 10) if k in there else 0 for k in names[tag]}
            got = Points.from_element(tag, **{k: num(a[k]) for k in there}, r="3", id="a").xy
        if tag == "line":
            want = [(a["x1"], a["y1"]), (a["x2"], a["y2"])]
        elif tag == "circle":
            want = [(a["cx"], a["cy"])]
        else:
            x, y, w, h = [a[k] for k in names["rect"]]
            want = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
    same(S, got, want, "points")
    S.reach()


def roundtrip(S):
    """Points written as an element are read back."""
    num = Numerals(S, svg, exp="E")
    num.format()
    tag, n = S.config["tag"], S.config["n"]
    xy = [tuple(p) for p in S.reals("xy", (n, 2), -10, 10)] if n else []
    if S.config.get("closed"):
        xy.append(xy[0])
    if tag == "polygon" and n > 1:
        # rings do not repeat their first point but at their end
        S.assume(S.or_(*[S.abs(xy[0][i] - xy[-2 if n > 2 or len(xy) > n else -1][i]) >= 2**-12 for i in range(2)]))
    points = Points(list(xy))
    attrs = points.to_element(tag)
    S.check(all(isinstance(v, str) for v in attrs.values()), "attributes are text")
    got = Points.from_element(tag, **attrs).xy
    same(S, points.xy, xy, "the points are left as they were")
    if tag in ("rect", "image", "svg"):
        if not n:
            want = [] if tag == "svg" else [(0, 0)] * 5
        else:
            lo = [xy[0][0], xy[0][1]]
            hi = list(lo)
            for p in xy[1:]:
                for i in range(2):
                    lo[i], hi[i] = S.min(lo[i], p[i]), S.max(hi[i], p[i])
            want = [(lo[0], lo[1]), (hi[0], lo[1]), (hi[0], hi[1]), (lo[0], hi[1]), (lo[0], lo[1])]
    elif tag == "circle":
        want = xy[:1] or [(0, 0)]
    elif tag == "line":
        want = [xy[0], xy[-1]] if xy else [(0, 0)] * 2
    elif tag == "polygon":
        closed = n < 2 or bool(S.and_(xy[0][0] == xy[-1][0], xy[0][1] == xy[-1][1]))
        want = xy if closed else xy + xy[:1]
    else:
        want = xy
    same(S, got, want, "read back")
    S.reach()


def geometry(S):
    """Bounding boxes, closure, and each transformation, of any points."""
    n = S.config["n"]
    xy = [tuple(p) for p in S.reals("xy", (n, 2), -10, 10)]
    num = Numerals(S, svg, exp="E")
    points = Points(list(xy))
    b = points.bbox()
    inside = [S.and_(b["x"] <= x, x <= b["x"] + b["width"], b["y"] <= y, y <= b["y"] + b["height"]) for x, y in xy]
    S.check(S.and_(*inside), "the box contains the points")
    for i, (k, size) in enumerate((("x", "width"), ("y", "height"))):
        S.check(S.or_(*[p[i] == b[k] for p in xy]), "the box begins at a point")
        S.check(S.or_(*[S.abs(p[i] - b[k] - b[size]) <= 1e-9 for p in xy]), "the box ends at a point")
    m = S.reals("m", 6, -4, 4)
    same(S, points.scale(m[0], m[1]).xy, [(x * m[0], y * m[1]) for x, y in xy], "scale")
    same(S, points.scale(m[0]).xy, [(x * m[0], y * m[0]) for x, y in xy], "scale by one")
    same(S, points.translate(m[0], m[1]).xy, [(x + m[0], y + m[1]) for x, y in xy], "translate")
    same(S, points.translate(m[0]).xy, [(x + m[0], y) for x, y in xy], "translate x")
    moved = [(m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]) for x, y in xy]
    same(S, points.matrix(*m).xy, moved, "matrix")
    same(S, points.transform("matrix(%s)" % " ".join(map(num, m))).xy, moved, "matrix, as text")
    same(S, points.transform("scale(%s)" % num(m[0])).xy, [(x * m[0], y * m[0]) for x, y in xy], "scale, as text")
    same(S, points.transform("scale(%s, %s)" % (num(m[0]), num(m[1]))).xy, [(x * m[0], y * m[1]) for x, y in xy], "scales, as text")
    same(S, points.transform(" translate( %s )" % num(m[0])).xy, [(x + m[0], y) for x, y in xy], "translation in x, as text")
    same(S, points.transform("translate(%s %s),translate(%s,%s)" % tuple(map(num, m[:4]))).xy,
         [(x + m[0] + m[2], y + m[1] + m[3]) for x, y in xy], "translations, as text")
    same(S, points.transform("").xy, xy, "no transformation")
    same(S, points.xy, xy, "the points are left as they were")
    S.raises(ValueError, lambda: points.transform("rotate(%s)" % num(m[0])), "unsupported function")
    S.reach()


def closure(S):
    """Closed if, and only if, the last point is the first."""
    n = S.config["n"]
    xy = [(S.choice("x%d" % i, [0, 1]), S.choice("y%d" % i, [0, 1])) for i in range(n)]
    d = S.real("d", -1, 1)
    xy = [(x * d, y + d) for x, y in xy]
    want = n < 2 or bool(S.and_(xy[0][0] == xy[-1][0], xy[0][1] == xy[-1][1]))
    S.check(bool(Points(xy).closed()) == want, "closed")
    S.reach()


ANY = "mMlLtThHvVcCsSqQaAzZ"
PATHS = [dict(n=3, style=STYLES[i % 3], reps=[1], fixed="Mm"[i % 2] + c) for i, c in enumerate(ANY)]
PATHS += [dict(n=3, style=STYLES[i % 3], reps=[2, 1, 2], fixed="Mm"[i % 2] + c) for i, c in enumerate("lHcZ")]
PATHS += [dict(n=4, style="tight", reps=[2, 1], lines=True, fixed="m" + c) for c in "mLhZ"]
PATHS += [dict(n=6, style="tight", fixed="MLzm", lines=True), dict(n=6, style="comma", fixed="mlZl", lines=True)]
MORE = [dict(n=4, style=s, reps=r, fixed=m + c) for s in STYLES for m in "Mm" for c in ANY for r in ([1], [2, 1])] + [dict(n=5, style=s, lines=True, reps=[1, 2], fixed="M" + c) for s in STYLES for c in "mMlLhHvVzZ"]
ELEMENTS = [dict(tag=t, n=n, sep=sep) for t in ("polyline", "polygon") for n, sep in ((1, " "), (2, "\n  "), (3, ","), (4, " , "))]
ELEMENTS += [dict(tag="line"), dict(tag="line", there=("y1", "x2")), dict(tag="line", there=()), dict(tag="circle"), dict(tag="circle", there=("cy",)),
             dict(tag="rect"), dict(tag="rect", there=("width", "height")), dict(tag="rect", there=("height", "y", "width")),
             dict(tag="image"), dict(tag="image", there=("width", "height", "x")), dict(tag="svg", sep=" "), dict(tag="svg", sep=", ")]
TAGS = ("path", "polyline", "polygon", "line", "circle", "rect", "image", "svg")
ROUND = [dict(tag=t, n=n) for t in TAGS for n in (1, 2, 3)] + [dict(tag=t, n=n, closed=True) for t in ("path", "polygon", "polyline") for n in (1, 2, 3) if (t, n) != ("polygon", 1)]
ROUND += [dict(tag=t, n=0) for t in ("path", "polyline", "circle", "line", "rect", "svg")]
HARNESSES = [
    H("path", path, PATHS, thorough=PATHS + MORE, bounds="3-6 commands, each with 1-2 sets of numbers, any numbers within 10 of zero"),
    H("elements", elements, ELEMENTS, bounds="up to 4 points"),
    H("roundtrip", roundtrip, ROUND, bounds="up to 4 points"),
    H("geometry", geometry, [dict(n=n) for n in (1, 2, 3)], bounds="1-3 points; transformations of components within 4 of zero"),
    H("closure", closure, [dict(n=n) for n in (1, 2, 3)], bounds="1-3 points"),
]
