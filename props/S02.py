"""Svg files as image coordinates."""
import io

import numpy as np

from symx.runner import H

import glimpse.svg as svg
from props.S01 import same
from props.numerals import Numerals

ASSUMPTIONS = ["float() reads the number written (symbolic runs look up numerals written for symbolic values; replays write the values)"]
HEAD = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"'


class Transform:
    """A transformation: text, and effect on points."""

    def __init__(self, S, num, name, kind):
        if kind == "t":
            x, y = S.real(name + "x", -10, 10), S.real(name + "y", -10, 10)
            self.text, self.f = "translate(%s,%s)" % (num(x), num(y)), lambda p: (p[0] + x, p[1] + y)
        elif kind == "s":
            x, y = S.real(name + "x", 0.25, 4), S.real(name + "y", 0.25, 4)
            self.text, self.f = "scale(%s %s)" % (num(x), num(y)), lambda p: (p[0] * x, p[1] * y)
        elif kind == "m":
            m = S.reals(name, 6, -4, 4)
            self.text = "matrix(%s)" % ", ".join(map(num, m))
            self.f = lambda p: (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])
        else:
            self.text, self.f = "", lambda p: p
        self.attr = ' transform="%s"' % self.text if self.text else ""

    def __call__(self, xy):
        return [self.f(p) for p in xy]


def points(S, name, n=2):
    return [tuple(p) for p in S.reals(name, (n, 2), -10, 10)]


def ordered(S, name, n):
    """Points whose order is known (of which boxes are found without cases)."""
    return [(S.real("%s_%d_x" % (name, i), 3 * i - 4, 3 * i - 2), S.real("%s_%d_y" % (name, i), 1 - 4 * i, 3 - 4 * i)) for i in range(n)]


def d(num, xy):
    return "M " + " ".join("%s,%s" % (num(x), num(y)) for x, y in xy)


class Frame:
    """The image: its box, transformation, and the coordinates it gives."""

    def __init__(self, S, num, kind=None, target=None, at=True, fixed=False):
        self.S = S
        self.x, self.y = (S.real("ix", -10, 10), S.real("iy", -10, 10)) if at else (0, 0)
        self.w, self.h = S.real("iw", 0.5, 16), S.real("ih", 0.5, 16)
        if fixed:
            self.x, self.y, self.w, self.h = 2, 3, 8, 6
        self.t = Transform(S, num, "it", kind)
        self.target = target or (self.w, self.h)
        pos = ' x="%s" y="%s"' % (num(self.x), num(self.y)) if at else ""
        self.xml = '<image id="photo"%s width="%s" height="%s" xlink:href="photo.jpg"%s />' % (pos, num(self.w), num(self.h), self.t.attr)
        self.box = [(self.x, self.y), (self.x + self.w, self.y), (self.x + self.w, self.y + self.h), (self.x, self.y + self.h), (self.x, self.y)]

    def image(self, xy, outer=lambda p: p):
        """Image coordinates of svg coordinates."""
        (x0, y0), (x1, y1) = [outer(self.t([p]))[0] for p in (self.box[0], self.box[2])]
        return [((x - x0) * self.target[0] / (x1 - x0), (y - y0) * self.target[1] / (y1 - y0)) for x, y in xy]


def read(text, key=None, **k):
    return svg.read(io.StringIO(text), key=key, **k)


def image(S):
    """Coordinates are relative to the image, whatever its position, size and transformation, and scaled to its target size."""
    num = Numerals(S, svg, exp="E")
    c = S.config
    target = tuple(c["target"]) if c.get("target") else None
    f = Frame(S, num, c.get("image"), target, c.get("at", True))
    t = Transform(S, num, "t", c.get("element"))
    xy, uv = points(S, "a"), points(S, "b", 1)
    a = '<path id="horizon" d="%s"%s />' % (d(num, xy), t.attr)
    b = '<circle cx="%s" cy="%s" r="1" />' % tuple(map(num, uv[0]))
    body = (f.xml, a, b) if c.get("first", True) else (a, b, f.xml)
    got = read("%s>%s</svg>" % (HEAD, "".join(body)), imgsz=target)
    S.check(set(got) == {"image", "path", "circle"}, "an entry for each tag")
    same(S, got["path"], f.image(t(xy)), "path")
    same(S, got["circle"], f.image(uv), "circle")
    same(S, got["image"], f.image(f.t(f.box)), "image")
    S.reach()


def viewport(S):
    """Without an image, coordinates are those of the drawing."""
    num = Numerals(S, svg, exp="E")
    t = [Transform(S, num, "t%d" % i, k) for i, k in enumerate(S.config["chain"])]
    xy = points(S, "a")
    text = '<polyline points="%s" />' % " ".join("%s,%s" % (num(x), num(y)) for x, y in xy)
    for i, u in enumerate(t):
        text = "<g%s>%s</g>" % (u.attr, text) if i else text.replace(" />", u.attr + " />")
        xy = u(xy)
    got = read("%s>%s</svg>" % (HEAD, text))
    for _ in t[1:]:
        S.check(set(got) == {"g"}, "groups nest")
        got = got["g"]
    same(S, got["polyline"], xy, "innermost transformation first" if S.config.get("order") else "transformed")
    S.raises(ValueError, lambda: read("%s>%s</svg>" % (HEAD, text), imgsz=(4, 4)), "a size, but no image")
    S.reach()


def functions(S):
    """Functions of a transformation, in the order of the svg specification."""
    num = Numerals(S, svg, exp="E")
    t = [Transform(S, num, "t%d" % i, k) for i, k in enumerate(S.config["chain"])]
    xy = points(S, "a", 1)
    text = '<polyline points="%s,%s" transform="%s" />' % (num(xy[0][0]), num(xy[0][1]), " ".join(u.text for u in t))
    for u in t[::-1]:
        xy = u(xy)
    same(S, read("%s>%s</svg>" % (HEAD, text))["polyline"], xy, "last function first")
    S.reach()


def groups(S):
    """Entries are named by key or tag, and nested by group; those sharing a name are listed in order."""
    num = Numerals(S, svg, exp="E")
    c = S.config
    f = Frame(S, num, c.get("image"), fixed=True)
    outer = Transform(S, num, "o", c.get("outer"))
    shift = Transform(S, num, "g", c.get("group"))
    p = [ordered(S, "p%d" % i, n) for i, n in enumerate((2, 1, 3, 1))]
    named = lambda i, name: ' id="%s"' % name if S.config["names"][i] else ""
    names = S.config["names"]
    items = ['<path%s d="%s" />' % (named(0, "near"), d(num, p[0])), '<path%s d="%s" />' % (named(1, "far"), d(num, p[1])),
             '<path%s d="%s" />' % (named(2, "near"), d(num, p[2])), '<circle%s cx="%s" cy="%s" />' % (named(3, "peak"), *map(num, p[3][0]))]
    inner = "<g%s%s>%s</g>" % (' id="horizon"' if names[4] else "", shift.attr, "".join(items))
    whole = "<g%s>%s%s</g>" % (outer.attr, inner, f.xml) if c["around"] else inner + f.xml
    text = '%s><title>drawing</title>%s<g /></svg>' % (HEAD, whole)
    got = read(text, key=c["key"])
    o = (lambda q: outer(q)) if c["around"] else (lambda q: q)
    want = {}
    key = (lambda i, name, tag: name if names[i] and c["key"] else tag)
    for i, (name, tag) in enumerate((("near", "path"), ("far", "path"), ("near", "path"), ("peak", "circle"))):
        want.setdefault(key(i, name, tag), []).append(f.image(o(shift(p[i])), o))
    here = got
    if c["around"]:
        # the empty group shares the outer group's name
        S.check(isinstance(got.get("g"), list) and len(got["g"]) == 2, "groups listed")
        here = got["g"][0]
    same(S, here["photo" if c["key"] else "image"], f.image(o(f.t(f.box)), o), "image")
    group = key(4, "horizon", "g")
    at = here[group]
    if not c["around"] and group == "g":
        S.check(isinstance(at, list) and len(at) == 2 and not at[1], "groups listed")
        at = at[0]
    S.check(set(at) == set(want), "names")
    for name, lists in want.items():
        v = at[name] if len(lists) > 1 else [at[name]]
        S.check(isinstance(v, list) and len(v) == len(lists), "listed together")
        for g, w in zip(v, lists):
            same(S, g, w, "points of " + ("many" if len(lists) > 1 else "one"))
    S.reach()


def images(S):
    """Of several images, the last is the frame."""
    num = Numerals(S, svg, exp="E")
    f = Frame(S, num)
    xy = points(S, "a")
    other = '<image x="%s" width="%s" height="%s" />' % tuple(map(num, S.reals("o", 3, 0.5, 10)))
    import warnings

    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = read('%s>%s<path d="%s" />%s</svg>' % (HEAD, other, d(num, xy), f.xml))
    S.check(any("multiple" in str(x.message) for x in w), "warns")
    same(S, got["path"], f.image(xy), "path")
    S.reach()


def written(S):
    """A drawing written is read back, point for point."""
    num = Numerals(S, svg, exp="E")
    num.format()
    w, h = S.real("w", 0.5, 16), S.real("h", 0.5, 16)
    lines = [ordered(S, "p%d" % i, n) for i, n in enumerate(S.config["n"])]
    closed = S.config.get("closed")
    if closed:
        lines[0].append(lines[0][0])
    e = svg.svg(svg.image(href="photo.jpg", width=w, height=h), svg.g(*[svg.path(d=list(x)) for x in lines], id="control"))
    text = svg.write(e, indent=S.config.get("indent"))
    got = read(text, key="id")
    v = got["control"]["path"] if len(lines) > 1 else [got["control"]["path"]]
    S.check(len(v) == len(lines), "paths")
    for g, x in zip(v, lines):
        same(S, g, x, "points")
    same(S, got["image"], [(0, 0), (w, 0), (w, h), (0, h), (0, 0)], "image")
    S.check(e.get("width") == e[0].get("width") and e.get("height") == e[0].get("height"), "sized to the image")
    two = svg.svg(svg.image(href="a.jpg", width=w, height=h), svg.image(href="b.jpg", width=2 * h, height=w))
    S.check(two.get("width") == two[1].get("width") and two.get("height") == two[1].get("height"), "sized to the last image")
    for given in (dict(width="7"), dict(height="9"), dict(width="7", height="9")):
        e = svg.svg(svg.image(href="a.jpg", width=w, height=h), **given)
        S.check({k: v for k, v in e.attrib.items() if k in ("width", "height")} == given, "size given")
    S.reach()


IMAGE = [dict(), dict(image="t"), dict(image="s"), dict(image="t", element="m", target=(8, 6)), dict(image="s", element="t", target=(8, 6), first=False),
         dict(at=False, element="s"), dict(at=False, image="t", target=(3, 7)), dict(element="m", first=False), dict(at=False, target=(8, 6))]
GROUPS = [dict(names=n, key=k, around=a, group=g, outer=o, image=i) for n, k, a, g, o, i in [
    ([1, 1, 1, 1, 1], "id", False, "t", None, None), ([1, 1, 1, 1, 1], None, False, None, None, "s"), ([1, 0, 1, 0, 1], "id", False, "m", None, None),
    ([0, 0, 0, 1, 0], "id", False, "s", None, "t"), ([1, 1, 1, 1, 1], "id", True, "t", "t", None), ([0, 1, 0, 0, 1], "id", True, None, "t", "t"), ([0, 1, 1, 0, 0], None, True, "s", "s", "s")]]
HARNESSES = [
    H("image", image, IMAGE, bounds="2 elements; any numbers; one transformation each of image and element"),
    H("viewport", viewport, [dict(chain=c) for c in ("", "t", "s", "m", "tt", "ttt", "ss", "_t", "_s", "_m")] , bounds="up to 3 transformations, nested, whose order does not matter"),
    H("nesting", viewport, [dict(chain=c, order=True) for c in ("st", "ts", "sm", "mt", "tst", "s_t")], bounds="2-3 transformations whose order matters"),
    H("functions", functions, [dict(chain=["t", "s"]), dict(chain=["s", "t"])], bounds="2 functions whose order matters"),
    H("groups", groups, GROUPS, bounds="5 elements in up to 2 levels of groups"),
    H("images", images, [{}], bounds="2 images"),
    H("written", written, [dict(n=n, indent=i, closed=c) for n, i, c in [([2], None, False), ([3, 1], 2, False), ([2, 3], "\t", True), ([1], 0, False), ([2], 4, True)]], bounds="up to 2 paths of up to 4 points"),
]
