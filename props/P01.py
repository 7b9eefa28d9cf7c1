"""Plots are given what they are to show, where it is."""
import datetime

import numpy as np

from symx.runner import H

import glimpse
from glimpse import optimize
from glimpse.optimize import Cameras, Matches, Points, Lines, Polynomial
from glimpse.convert import Converter
from glimpse.convert.cameras import OpenCV
from props import plots
from props.H02 import _cdist
from props.O02 import stubs
from props.plots import recorded

ASSUMPTIONS = ["matplotlib draws what its functions are given (quivers with angles='xy', scale_units='xy' and scale=1 end at x + u, y + v)"]
XY = dict(angles="xy", scale_units="xy", scale=1)


def camera(S, i=0, free=True):
    return glimpse.Camera(imgsz=(8, 6), f=(S.real("f%d" % i, 2, 4), 3.0) if free else 3.0, c=(S.real("c%d" % i, -1, 1), 0.25) if free else 0.0)


def same(S, a, b, label):
    """Equal as rows."""
    a, b = [list(r) for r in a], [list(r) for r in b]
    if S.check(len(a) == len(b), label + ": number") is False or len(a) != len(b):
        return
    if a:
        S.eq(a, b, label)


def arrows(call):
    return list(zip(*call[1][:4]))


def options(S, call, **want):
    for k, v in want.items():
        S.check(k in call[2], "options")
        if k in call[2]:
            S.check(call[2][k] == v, "options")


def limits(S, calls, new, size):
    got = [(c[0],) + tuple(c[1]) for c in calls.of("xlim", "ylim")]
    if new:
        S.check(sorted(c[0] for c in got) == ["xlim", "ylim"], "limits of a new plot")
        for c in got:
            S.eq(list(c[1:]), [0, size[0]] if c[0] == "xlim" else [size[1], 0], "limits of a new plot")
    else:
        S.check(not got, "limits of an existing plot unchanged")


def errors(S):
    """Arrows from observed to predicted points, selected or not."""
    c = S.config
    n = 3
    cam = camera(S)
    uv = S.reals("uv", (n, 2), 0, 6)
    at = {}
    if c["kind"] == "points":
        control = Points(cam=cam, uv=uv, xyz=np.array([[1.0, 4.0, 0.5], [-1.0, 2.0, 0.5], [0.0, 2.0, -1.0]]))
    else:
        cams = [cam, camera(S, 1, free=False)]
        control = Matches(cams=cams, uvs=[uv, S.reals("other", (n, 2), 1, 5)])
        if c.get("cam"):
            at = dict(cam=1)
            cam = cams[1]
    obs, pred = control.observed(**at), control.predicted(**at)
    calls = recorded(S, existing=bool(c.get("existing")))
    kw = {k: c[k] for k in ("selected", "unselected") if k in c}
    idx = c.get("index", slice(None))
    if isinstance(idx, list) and c.get("as_array"):
        idx = np.array(idx)
    if c.get("as_camera"):
        at = dict(cam=cam)
    got = control.plot(index=idx, alpha=0.5, **at, **kw)
    sel = list(np.arange(n)[idx])
    rest = [i for i in range(n) if i not in sel]
    want = [(k, v) for k, v in (("unselected", rest), ("selected", sel)) if len(v) and kw.get(k, "") is not None]
    drawn = calls.of("quiver")
    S.check(len(drawn) == len(want), "points hidden or shown")
    for (k, rows), call in zip(want, drawn):
        same(S, arrows(call), [[obs[i][0], obs[i][1], pred[i][0] - obs[i][0], pred[i][1] - obs[i][1]] for i in rows], k + ": from observed to predicted")
        options(S, call, alpha=0.5, **XY)
        style = kw.get(k, dict(selected="red", unselected="gray")[k])
        options(S, call, **(style if isinstance(style, dict) else dict(color=style)))
        S.check(got[k] is call[3], k + ": returned")
    for k in ("unselected", "selected"):
        if k not in dict(want):
            S.check(got[k] is None, k + ": hidden")
    limits(S, calls, not c.get("existing"), (8, 6))
    S.reach()


def lines(S):
    """Image lines, world lines as seen, and arrows from image points to their nearest."""
    cam = camera(S, free=False)
    uv = [S.reals("uv0", (2, 2), 2, 4), S.reals("uv1", (1, 2), 2, 4)]
    xyz = [np.array([[-0.5, 4.0, 0.25], [0.5, 4.0, 0.25]])]
    if S.symbolic:
        S.patch(glimpse.helpers.scipy.spatial.distance, "cdist", _cdist(S))
    L = Lines(cam=cam, uvs=uv, xyzs=xyz, density=0.25)
    obs, pred = L.observed(), L.predicted()
    seen = L._xyzs_to_uvs()
    calls = recorded(S, existing=True)
    c = S.config
    got = L.plot(index=c.get("index", slice(None)), **{k: None for k in c.get("hide", ())})
    drawn = calls.of("plot")
    want = []
    for k, style, rows in (("observed", "green", uv), ("predicted", "yellow", seen)):
        if k in c.get("hide", ()):
            S.check(got[k] is None, k + ": hidden")
            continue
        want += [(style, r) for r in rows]
        S.check(len(got[k]) == len(rows), k + ": returned")
    S.check(len(drawn) == len(want), "lines drawn")
    for call, (style, rows) in zip(drawn, want):
        same(S, zip(*call[1][:2]), rows, "line")
        options(S, call, color=style)
    sel = list(np.arange(3)[c.get("index", slice(None))])
    want = [r for r in ([i for i in range(3) if i not in sel], sel) if r]
    drawn = calls.of("quiver")
    S.check(len(drawn) == len(want), "points drawn")
    for call, rows in zip(drawn, want):
        same(S, arrows(call), [[obs[i][0], obs[i][1], pred[i][0] - obs[i][0], pred[i][1] - obs[i][1]] for i in rows], "from observed to predicted")
        options(S, call, **XY)
    S.reach()


def models(S):
    """Cameras with any parameters, shown without a trace."""
    stubs(S)
    c = S.config
    one = len(c["controls"]) == 1
    C = [camera(S), camera(S, 1)][:1 if one else 2]
    p = [Points(cam=C[i], uv=S.reals("uv%d" % i, (2 - i, 2), 0, 6), xyz=np.array([[1.0, 4.0, 0.5], [-1.0, 2.0, 0.5]])[:2 - i], directions=bool(c.get("directions"))) for i in range(len(C))]
    m = None if one else Matches(cams=C, uvs=[S.reals("m%d" % i, (1, 2), 1, 5) for i in range(2)])
    controls = [p[k] if isinstance(k, int) else m for k in c["controls"]]
    model = Cameras(cams=C, controls=controls, cam_params=[{"c": 0}, {"f": 1, **({"xyz": 0} if c.get("directions") else {})}][:len(C)], scales=False, sparsity=False)
    before = [list(cam.to_array()) for cam in C]
    x = [S.real("x0", -1, 1), S.real("x1", 2, 4)] + ([0.5] if c.get("directions") else [])
    x = x[:1] if one else x
    if c.get("directions"):
        # elements in order: position before focal length
        x = [x[0], x[2], x[1]]
    k = c.get("cam", 0)
    calls = recorded(S, existing=True)
    args = {}
    if c.get("params"):
        args["params"] = x
    if "index" in c:
        args["index"] = np.array(c["index"]) if c.get("as_array") else c["index"]
    if c.get("directions"):
        S.raises(ValueError, lambda: model.plot(cam=k, **args), "directions seen from elsewhere")
        for cam, b in zip(C, before):
            S.eq(cam.to_array(), b, "cameras after failed plot")
        S.reach()
        return
    got = model.plot(cam=C[k] if c.get("as_camera") else k, **args)
    for cam, b in zip(C, before):
        S.eq(cam.to_array(), b, "cameras after plot")
    if c.get("params"):
        C[0].c = (x[0], C[0].c[1])
        if not one:
            C[1].f = (C[1].f[0], x[1])
    mine = [q for q in controls if q is m or q.cam is C[k]]
    drawn = calls.of("quiver")
    S.check(len(got) == len(mine) == len(drawn) if "index" not in c else len(got) == len(mine) == 1, "control of the camera")
    for call, q in zip(drawn[-1:] if "index" in c else drawn, mine):
        obs, pred = (q.observed(k), q.predicted(k)) if q is m else (q.observed(), q.predicted())
        rows = range(len(obs)) if "index" not in c else c["index"]
        same(S, arrows(call), [[obs[i][0], obs[i][1], pred[i][0] - obs[i][0], pred[i][1] - obs[i][1]] for i in rows], "from observed to predicted")
    S.reach()


def weights(S):
    """Observed points in size and color by weight."""
    stubs(S)
    cam = camera(S)
    uv = S.reals("uv", (3, 2), 0, 6)
    w = S.reals("w", 3, 0.5, 4)
    P = Points(cam=cam, uv=uv, xyz=np.array([[1.0, 4.0, 0.5], [-1.0, 2.0, 0.5], [0.0, 2.0, -1.0]]))
    model = Cameras(cams=[cam], controls=[P], cam_params=[{"c": 0}], weights=w if S.config.get("weights") else None, scales=False, sparsity=False)
    calls = recorded(S, existing=True)
    idx = S.config.get("index", slice(None))
    out = model.plot_weights(index=idx, marker="x")
    (call,) = calls
    S.check(call[0] == "scatter" and out is call[3], "points")
    sel = list(np.arange(3)[idx])
    same(S, zip(*call[1][:2]), [uv[i] for i in sel], "observed points")
    W = [w[i] * 3 / (w[0] + w[1] + w[2]) if S.config.get("weights") else 1 for i in sel]
    for k in "cs":
        S.eq(list(np.ravel(call[2][k])), W, "weights")
    options(S, call, marker="x")
    S.reach()


def polynomial(S):
    """Points, and the polynomial at each."""
    c = S.config
    xy = S.reals("xy", (3, 2), -4, 4)
    P = Polynomial(xy, deg=1)
    p = [S.real("a", -2, 2), S.real("b", -2, 2)]
    if c.get("fit"):
        S.patch(optimize.np if not S.symbolic else P, "polyfit" if not S.symbolic else "fit", (lambda *a, **k: np.array(p)) if not S.symbolic else (lambda index=None: S.array(p)))
    calls = recorded(S, existing=True)
    idx = c.get("index", slice(None))
    kw = {k: c[k] for k in ("selected", "unselected", "predicted") if k in c}
    got = P.plot(params=None if c.get("fit") else S.array(p), index=idx, **kw)
    sel = list(np.arange(3)[idx])
    rest = [i for i in range(3) if i not in sel]
    want = [(k, v) for k, v in (("unselected", rest), ("selected", sel)) if v and kw.get(k, "") is not None]
    drawn = calls.of("scatter")
    S.check(len(drawn) == len(want), "points hidden or shown")
    for (k, rows), call in zip(want, drawn):
        same(S, zip(*call[1][:2]), [xy[i] for i in rows], k)
        S.check(got[k] is call[3], k + ": returned")
    for k in ("unselected", "selected"):
        if k not in dict(want):
            S.check(got.get(k) is None, k + ": hidden")
    drawn = calls.of("plot")
    if kw.get("predicted", "") is None:
        S.check(not drawn and got["predicted"] is None, "fit hidden")
    else:
        (call,) = drawn
        same(S, zip(*call[1][:2]), [[q[0], p[0] * q[0] + p[1]] for q in xy], "fit")
    S.reach()


def converter(S):
    """Arrows along the residuals of each point."""
    cam = camera(S)
    x = OpenCV(imgsz=(8, 6), fx=3.0, fy=3.5, cx=S.real("cx", 2, 4), cy=3.0)
    q = S.reals("q", (2, 2), -2, 2)
    m = Converter(x, cam, uv=S.array([[r[i] * cam.f[i] + (4, 3)[i] + cam.c[i] for i in range(2)] for r in q]))
    calls = recorded(S, existing=True)
    out = m.plot(**S.config.get("kw", {}))
    (call,) = calls
    S.check(out is call[3], "returned")
    want = [[r[0] * cam.f[0] + 4 + cam.c[0], r[1] * cam.f[1] + 3 + cam.c[1]] for r in q]
    want = [w + [w[0] - (r[0] * 3.0 + x.cx), w[1] - (r[1] * 3.5 + 3.0)] for w, r in zip(want, q)]
    same(S, arrows(call), want, "residuals at their points")
    options(S, call, **{**XY, **S.config.get("kw", {})})
    S.reach()


def rasters(S):
    """Rasters, images and tiles cover their extents."""
    a, b = S.real("a", -8, 8), S.real("b", -8, 8)
    d = [S.real("dx", 0.25, 2) * (-1 if S.config["flip"][0] else 1), S.real("dy", 0.25, 2) * (-1 if S.config["flip"][1] else 1)]
    Z = S.reals("z", (2, 3), -9, 9)
    r = glimpse.Raster(Z, x=S.array([a, a + 3 * d[0]]), y=S.array([b, b + 2 * d[1]]))
    calls = recorded(S, existing=True)
    r.plot(alpha=0.5)
    call = calls.pop()
    S.check(call[0] == "imshow" and call[2].get("origin", "upper") == "upper", "first row on top")
    S.eq(call[1][0], Z, "values")
    # left, right, bottom, top
    S.eq(list(call[2]["extent"]), [a, a + 3 * d[0], b + 2 * d[1], b], "extent")
    other = Z * 2
    r.plot(other)
    S.eq(calls.pop()[1][0], other, "other values")
    r.set_plot_limits()
    got = {c[0]: list(c[1]) for c in calls}
    S.eq(got["xlim"], [a, a + 3 * d[0]], "limits")
    S.eq(got["ylim"], [b + 2 * d[1], b], "limits")
    del calls[:]
    # tiles and boxes
    obs = glimpse.Observer.__new__(glimpse.Observer)
    ax = plots.Axes() if S.symbolic else plots.plt.gca()
    im = obs.plot_tile(Z, axes=ax)
    S.eq(list(im.get_extent()), [0, 3, 2, 0], "extent of a tile by default")
    S.check(call[2].get("origin", "upper") == "upper", "first row on top")
    box = [S.real("l", 0, 3), S.real("t", 0, 3), S.real("r", 4, 8), S.real("bt", 4, 8)]
    im = obs.plot_tile(Z, box=box, axes=ax)
    S.eq(list(im.get_extent()), [box[0], box[2], box[3], box[1]], "extent of a tile")
    made = []

    class Rectangle:
        def __init__(self, xy, width, height, **kw):
            self.xy, self.width, self.height, self.kw = xy, width, height, kw

    if S.symbolic:
        S.patch(plots.matplotlib.patches, "Rectangle", Rectangle)
    p = obs.plot_box(box, axes=ax, fill=False)
    x, y, w, h = (list(p.xy) + [p.width, p.height]) if S.symbolic else (list(p.get_xy()) + [p.get_width(), p.get_height()])
    S.eq([x, y, x + w, y + h], box, "box")
    S.reach()


def image(S):
    """Images at the size of their camera, over its extent."""
    n = S.concrete(S.int("scale", 1, 2))
    img = glimpse.Image("x.jpg", cam=dict(imgsz=(4, 2), f=(1, 1)), exif=None if False else glimpse.Exif.__new__(glimpse.Exif), datetime=datetime.datetime(2020, 1, 1))
    if n > 1:
        img.cam.resize(n)
    A = S.reals("a", (2 * n, 4 * n), 0, 255)
    S.patch(img, "read", lambda *a, **k: A)
    calls = recorded(S, existing=True)
    img.plot()
    (call,) = calls
    S.eq(call[1][0], A, "values")
    S.check(call[0] == "imshow" and call[2]["origin"] == "upper" and list(call[2]["extent"]) == [0, 4 * n, 2 * n, 0], "extent")
    del calls[:]
    img.set_plot_limits()
    S.check({c[0]: [int(v) for v in c[1]] for c in calls} == dict(xlim=[0, 4 * n], ylim=[2 * n, 0]), "limits")
    S.reach()


def tracks(S):
    """Positions, velocities and their uncertainties, by track."""
    n, m = S.config["shape"]
    M, sig = S.reals("m", (n, m, 6), -100, 100), S.reals("s", (n, m, 6), 0, 10)
    # times without a position by track (before its start or after its end)
    missing = S.config.get("missing", {})
    for i, js in missing.items():
        M[int(i), js], sig[int(i), js] = np.nan, np.nan
    begin = {i: [j for j in range(m) if j not in missing.get(str(i), [])] for i in range(n)}
    when = [datetime.datetime(2020, 1, 1 + i) for i in range(m)]
    if S.symbolic:
        from symx import times

        module = times.DTModule()
        t = glimpse.Tracks(when, datetime.timedelta(days=1), means=M, sigmas=sig)
    else:
        t = glimpse.Tracks(when, datetime.timedelta(days=1), means=M, sigmas=sig)
    idx = S.config.get("tracks", slice(None))
    sel = list(np.atleast_1d(np.arange(n)[idx]))
    calls = recorded(S, existing=True)

    def columns(v):
        v = np.asarray(v, dtype=object)
        return [list(v)] if v.ndim == 1 else [list(v[:, j]) for j in range(v.shape[1])]

    kw = dict(tracks=idx) if "tracks" in S.config else {}
    t.plot_xy(sigma=True, mean=dict(color="blue") if S.config.get("style") else True, **kw)
    mean, start = calls.of("plot")
    same(S, columns(mean[1][0]), [M[i, :, 0] for i in sel], "x of each track")
    same(S, columns(mean[1][1]), [M[i, :, 1] for i in sel], "y of each track")
    for k in range(2):
        # (tracks without positions have no start)
        S.eq([v for v in np.ravel(start[1][k]) if v == v], [M[i, begin[i][0], k] for i in sel if begin[i]], "start")
    bars = calls.of("errorbar")
    S.check(len(bars) == len(sel), "uncertainty of each track")
    for c, i in zip(bars, sel):
        same(S, [c[1][0], c[1][1], c[2]["xerr"], c[2]["yerr"]], [M[i, :, 0], M[i, :, 1], sig[i, :, 0], sig[i, :, 1]], "uncertainty")
    color = "blue" if S.config.get("style") else "black"
    S.check(all(c[2]["color"] == color for c in calls), "one color")
    del calls[:]
    # parts
    S.check(list(t.plot_xy(start=False, **kw)) == ["mean"] and list(t.plot_xy(mean=False, **kw)) == ["start"], "parts asked for")
    del calls[:]
    out = t.plot_vxy(**kw)
    S.check(len(calls) == len(out) == len(sel), "velocities of each track")
    for c, i in zip(calls, sel):
        same(S, [list(a) for a in c[1][:4]], [M[i, :, 0], M[i, :, 1], M[i, :, 3], M[i, :, 4]], "velocities")
        options(S, c, angles="xy")
    for dim in range(3):
        del calls[:]
        t.plot_v1d(dim, sigma=True, **kw)
        mean = calls.of("plot")[0]
        S.check(list(mean[1][0]) == when, "times")
        same(S, columns(mean[1][1]), [M[i, :, 3 + dim] for i in sel], "velocity of each track")
        fills = calls.of("fill_between")
        S.check(len(fills) == len(sel), "uncertainty of each track")
        for c, i in zip(fills, sel):
            S.check(list(c[1][0]) == when, "times")
            same(S, [c[2]["y1"], c[2]["y2"]], [[M[i, j, 3 + dim] + s * sig[i, j, 3 + dim] for j in range(m)] for s in (1, -1)], "uncertainty")
    S.reach()


HARNESSES = [
    H("errors", errors, [dict(kind="points"), dict(kind="points", index=[2, 0], existing=True), dict(kind="points", index=[1], unselected=None, selected={"color": "blue", "width": 2}), dict(kind="points", index=slice(0, 0), selected=None),
                         dict(kind="matches"), dict(kind="matches", cam=1, index=[0], as_array=True, existing=True), dict(kind="matches", cam=1, selected=None, index=slice(1, None)), dict(kind="matches", as_camera=True, index=[2, 1])],
      bounds="3 points with any coordinates, several selections"),
    H("lines", lines, [dict(), dict(index=[1], hide=["predicted"]), dict(index=slice(1, None), hide=["observed"])], bounds="3 image points near one world line"),
    H("models", models, [dict(controls=[0, 1, "m"], params=True), dict(controls=[0, 1, "m"], cam=1, params=True), dict(controls=[1, 0, "m"], cam=1, as_camera=True), dict(controls=[0], index=[1, 0], as_array=True),
                         dict(controls=[0], index=[1], params=True), dict(controls=[0, 1], params=True, cam=1, directions=True)], bounds="2 cameras, up to 3 kinds of control, any parameters"),
    H("weights", weights, [dict(weights=True), dict(weights=True, index=[2, 0]), dict(index=slice(1, None))], bounds="3 points with any weights"),
    H("polynomial", polynomial, [dict(), dict(index=[2, 0]), dict(selected=None, predicted=None), dict(unselected=None, index=[1]), dict(fit=True, index=[0, 1])], bounds="3 points, any coefficients"),
    H("converter", converter, [dict(), dict(kw=dict(color="blue", width=2))], bounds="2 points of a camera without distortion"),
    H("rasters", rasters, [dict(flip=f) for f in ((False, True), (True, False), (False, False))], bounds="3x2 rasters in any direction, any box"),
    H("image", image, bounds="images of 2 sizes"),
    H("tracks", tracks, [dict(shape=(2, 3)), dict(shape=(3, 2), tracks=[2, 0], style=True), dict(shape=(3, 2), tracks=slice(1, None)), dict(shape=(2, 2), tracks=1), dict(shape=(3, 3), missing={"0": [0], "1": [0, 1, 2], "2": [1, 2]}), dict(shape=(2, 3), tracks=1, missing={"1": [0, 1]})], bounds="1-3 tracks, 2-3 times, any values"),
]
