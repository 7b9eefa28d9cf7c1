"""Animations show in each frame its image, position and history."""
import datetime
import itertools

import numpy as np

from symx.runner import H

import glimpse
from props import plots
from props.plots import animated, arrows

ASSUMPTIONS = ["matplotlib's animation calls the function it is given with each of the frames (matplotlib 3.7 or later)", "no box edge is within 2^-6 of the middle of a pixel"]
SZ = (8, 6)
M = 2**-6


class Image(glimpse.Image):
    """Pixels numbered by image, row and column."""

    def __init__(self, i, cam):
        self.path = "/dir/img%d.jpg" % i
        self.cam = cam
        self.datetime = datetime.datetime(2020, 1, 1 + i)
        n = cam.imgsz
        self.A = np.array([[1000 * (i + 1) + 20 * r + c for c in range(int(n[0]))] for r in range(int(n[1]))], dtype=float)
        self.array = None

    def read(self, box=None, cache=True):
        if box is None:
            return self.A
        l, t, r, b = [int(v) for v in box]
        assert 0 <= l < r <= self.A.shape[1] and 0 <= t < b <= self.A.shape[0]
        return self.A[t:b, l:r]


def observer(S, shifts, sizes=None):
    sizes = sizes or [SZ] * len(shifts)
    # image coordinates are shifted between images
    cams = [glimpse.Camera(imgsz=z, f=4.0, c=(d[0] + (SZ[0] - z[0]) / 2, d[1] + (SZ[1] - z[1]) / 2)) for d, z in zip(shifts, sizes)]
    return glimpse.Observer([Image(i, c) for i, c in enumerate(cams)], cache=False)


def snapped(S, uv, size, bounds=SZ):
    """Nearest pixel edges to the box centered at a point, within the image."""
    out = []
    for s in (-0.5, 0.5):
        for k in range(2):
            e = uv[k] + s * size[k]
            r = e - S.floor(e)
            S.assume(S.or_(r <= 0.5 - M, r >= 0.5 + M))
            q = S.concrete(S.floori(e + 0.5))
            out.append(min(max(int(q), 0), bounds[k]))
    return out


def shows(S, im, img, box, label):
    S.check(np.array_equal(np.asarray(im.get_array(), dtype=float), img.A[box[1]:box[3], box[0]:box[2]]), label + ": pixels")
    S.eq([float(v) if not S.symbolic else v for v in im.get_extent()], [box[0], box[2], box[3], box[1]], label + ": extent")


def at(S, line, x, y, label):
    gx, gy = line.get_xdata(), line.get_ydata()
    S.eq(list(np.ravel(gx)), list(x), label)
    S.eq(list(np.ravel(gy)), list(y), label)


def window(S, ax, uv, size, label):
    S.eq(list(ax.get_xlim()), [uv[0] - size[0] / 2, uv[0] + size[0] / 2], label)
    S.eq(list(ax.get_ylim()), [uv[1] + size[1] / 2, uv[1] - size[1] / 2], label)


def aligned(S):
    """Images about one direction: shifted (left) or not (right)."""
    c = S.config
    size = c.get("size", (4, 2))
    n = 3
    far = c.get("far", 0.0)
    shifts = [(0.0, 0.0), (S.real("du1", -2, 2), S.real("dv1", -1, 1)) if c.get("wide") else (S.real("du1", 1.75, 2.25), S.real("dv1", -1, -0.5)), (far + S.real("du2", 0, 0.25), S.real("dv2", -0.25, 0.25))]
    obs = observer(S, shifts, c.get("sizes"))
    frames = c.get("frames")
    first = 0 if frames is None else frames[0]
    z = (c.get("sizes") or [SZ] * n)[first]
    if c.get("middle"):
        uv = [v / 2 for v in z]
    else:
        w = 1 if c.get("wide") else 0.375
        uv = [z[0] / 2 + S.real("u", -w, 1), z[1] / 2 + S.real("v", -w, w)]
    box0 = snapped(S, uv, size, z)
    made = animated(S)
    given = None if c.get("middle") else S.array(uv)
    kw = {} if frames is None else dict(frames=frames)
    a = obs.animate(uv=given, size=size, interval=50, animation=dict(repeat=False), **kw)
    ((left, right),) = made
    S.check([int(i) for i in a.frames] == (list(range(n)) if frames is None else list(frames)), "frames")
    S.check(a.kw["interval"] == 50 and a.kw["repeat"] is False, "options")
    for ax in (left, right):
        shows(S, ax.images[0], obs.images[first], box0, "first image")
        at(S, ax.lines[0], [uv[0]], [uv[1]], "point")
    for i in [int(i) for i in a.frames]:
        p = [uv[k] + shifts[i][k] - shifts[first][k] for k in range(2)]
        # within the image, partly or not
        e = [p[0] - size[0] / 2, p[1] - size[1] / 2, p[0] + size[0] / 2, p[1] + size[1] / 2]
        zi = (c.get("sizes") or [SZ] * n)[i]
        for k in range(4):
            S.assume(S.and_(S.abs(e[k]) >= M, S.abs(e[k] - zi[k % 2]) >= M))
        inside = [S.and_(e[x] > 0, e[x] < zi[0], e[y] > 0, e[y] < zi[1]) for x, y in ((0, 1), (2, 1), (2, 3), (0, 3))]
        some = S.or_(*inside)
        out = a.show(i)
        if some:
            box = snapped(S, p, size, zi)
            for ax in (left, right):
                shows(S, ax.images[0], obs.images[i], box, "frame")
        else:
            for ax in (left, right):
                g = np.asarray(ax.images[0].get_array())
                S.check(tuple(g.shape) == (size[1], size[0], 3) and bool((g == 255).all()), "no image: white")
                S.eq(list(ax.images[0].get_extent()), [e[0], e[2], e[3], e[1]], "no image: extent")
        for ax in (left, right):
            at(S, ax.lines[0], [p[0]], [p[1]], "frame: point")
        window(S, left, p, size, "follows the point")
        window(S, right, uv, size, "does not follow the point")
        S.check(left.texts[0].get_text() == "%d : img%d" % (i, i), "label")
        S.check(all(any(q is w for w in out) for ax in (left, right) for q in ax.images + ax.lines), "all redrawn")
    S.reach()


def followed(S):
    """A moving point: first image at its start, each image at its position with those before."""
    c = S.config
    size = c.get("size", (4, 2))
    frames = c.get("frames")
    order = list(range(3)) if frames is None else list(frames)
    w = 0.5 if c.get("wide") else 0.25
    shifts = [(0.0, 0.0), (S.real("du", -w, w), 0.25), (0.25, S.real("dv", -0.5, 0.5))]
    obs = observer(S, shifts, c.get("sizes"))
    sizes = c.get("sizes") or [SZ] * 3
    q = [[4.0 + (j - 1) * 0.5 + S.real("u%d" % j, -w, w), 3.0 + S.real("v%d" % j, -w, 0.25)] for j in range(len(order))]
    xyz = S.array([[(p[0] - 4.0) / 4.0 * 2.0, 2.0, -(p[1] - 3.0) / 4.0 * 2.0] for p in q])
    made = animated(S)
    given = frames if frames is None or not c.get("as_array") else np.array(frames)
    first = order[0]
    start = [q[0][k] + shifts[first][k] for k in range(2)]
    box0 = snapped(S, start, size, sizes[first])
    a = obs.track(xyz, frames=given, size=size)
    ((left, right),) = made
    S.check([int(i) for i in a.frames] == order, "frames")
    shows(S, left.images[0], obs.images[first], box0, "first image")
    at(S, left.lines[0], [start[0]], [start[1]], "start")
    S.check(left.texts[0].get_text().endswith("img%d" % first), "label of the first image")
    for j, i in enumerate(order):
        P = [[r[k] + shifts[i][k] for k in range(2)] for r in q[:j + 1]]
        box = snapped(S, P[-1], size, sizes[i])
        out = a.show(i)
        shows(S, right.images[0], obs.images[i], box, "frame")
        at(S, right.lines[0], [r[0] for r in P], [r[1] for r in P], "history")
        at(S, right.lines[1], [P[-1][0]], [P[-1][1]], "position")
        shows(S, left.images[0], obs.images[first], box0, "first image")
        at(S, left.lines[0], [start[0]], [start[1]], "start")
        S.check(right.texts[0].get_text() == "%d : img%d" % (i, i), "label")
        S.check(all(any(w is o for o in out) for w in right.images + right.lines), "all redrawn")
    S.reach()


class Tracker:
    def __init__(self, observers):
        self.observers = observers


def trajectory(S):
    """A track on the map (and image): positions so far, and where it goes until the next frame."""
    c = S.config
    m, p = 4, 2
    days = c.get("days", [0, 1, 3, 7])
    unit = c.get("unit", 1)
    when = [datetime.datetime(2020, 1, 1) + datetime.timedelta(days=d) for d in days]
    mine = c.get("images", [0, 1, 2, 3])
    # seen at a depth of two
    w = 0.5 if c.get("wide") else 0.125
    q = [[4.0 + (j - 1.5) / 2 + S.real("u%d" % j, -w, w), 3.0 + S.real("v%d" % j, -0.25, w)] for j in range(m)]
    vel = S.reals("vel", (m, 3), -1, 1)
    means = S.array([[[-9.0] * 6] * m, [[(r[0] - 4.0) / 2.0, 2.0, -(r[1] - 3.0) / 2.0, vel[j, 0], vel[j, 1], vel[j, 2]] for j, r in enumerate(q)]])
    for j in c.get("missing", ()):
        means[1, j] = np.nan
    shifts = [(0.0, 0.0), (0.25, 0.0), (0.0, -0.25), (0.125, 0.125)]
    kw = {}
    with_images = c.get("tracker", True)
    obs = observer(S, shifts)
    if with_images:
        kw["tracker"] = Tracker([None, obs])
    if c.get("particles"):
        kw["particles"] = S.array([[[[S.real("p%d_%d_%d" % (j, k, x), -0.5, 0.5) + (2 if x == 1 else 0) for x in range(6)] for k in range(p)] for j in range(m)]] * 2)
        W = np.array([[[0.25, 0.75], [0.5, 0.5], [1.0, 0.0], [0.375, 0.625]]] * 2)
        for j in c.get("missing", ()):
            # particles are missing where positions are
            kw["particles"][1, j], W[1, j] = np.nan, np.nan
        kw["weights"] = W
    t = glimpse.Tracks(when, datetime.timedelta(days=unit), means=means, images=[[None, k] for k in mine], **kw)
    show = c.get("show", with_images)
    made = animated(S)
    frames = c.get("frames")
    want = [j for j in (range(m) if frames is None else sorted(frames)) if mine[j] is not None and j not in c.get("missing", ())]
    msize, isize = (20, 10), (4, 2)
    args = {} if "show" not in c else dict(images=c["show"])
    for j in want if show else ():
        # tiles are clear of the middle of a pixel
        snapped(S, [q[j][k] + shifts[mine[j]][k] for k in range(2)], isize)
    a = t.animate(1, obs=1, frames=frames, map_size=msize, img_size=isize, **args)
    axes = list(made[0])
    S.check(len(axes) == (2 if show else 1), "map, and image if any")
    S.check([int(i) for i in a.frames] == want[:-1], "frames with positions and images, but the last")
    for n, i in enumerate(want[:-1]):
        out = a.show(i)
        k = mine[i]
        # (velocities as they are without particles or a tracker)
        scale = (days[want[n + 1]] - days[i]) / unit if c.get("particles") or with_images else 1
        ok = [j for j in range(i + 1) if j not in c.get("missing", ())]

        def known(v):
            return [w for j, w in enumerate(v) if j in ok]

        line = axes[0].lines[0]
        S.eq(known(line.get_xdata()), [means[1, j, 0] for j in ok], "positions so far")
        S.eq(known(line.get_ydata()), [means[1, j, 1] for j in ok], "positions so far")
        S.eq(list(axes[0].get_xlim()), [means[1, i, 0] - 10, means[1, i, 0] + 10], "map about the position")
        S.eq(list(axes[0].get_ylim()), [means[1, i, 1] - 5, means[1, i, 1] + 5], "map about the position")
        drawn = list(axes[0].collections)
        S.check(len(drawn) == (2 if c.get("particles") else 1), "arrows of this frame only")
        S.eq(arrows(drawn[-1]), [[means[1, i, 0], means[1, i, 1], vel[i, 0] * scale, vel[i, 1] * scale]], "path to the next frame")
        if c.get("particles"):
            P = kw["particles"][1, i]
            S.eq(arrows(drawn[0]), [[r[0], r[1], r[3] * scale, r[4] * scale] for r in P], "paths of particles to the next frame")
            S.eq(list(np.asarray(drawn[0].get_array())), list(W[1, i]), "weights of particles")
            limits = [float(f(W[1][[j for j in range(m) if j not in c.get("missing", ())]])) for f in (np.min, np.max)]
            S.check([float(v) for v in drawn[0].get_clim()] == limits, "colors of weights")
        label = "img%d" % k if show else "1 : %d" % k
        S.check(axes[0].texts[0].get_text() == label, "label")
        if show:
            def seen(x):
                return [4 * x[0] / x[1] + 4 + shifts[k][0], -4 * x[2] / x[1] + 3 + shifts[k][1]]
            uv = [[q[j][e] + shifts[k][e] for e in range(2)] for j in ok]
            lines = axes[1].lines
            S.eq(known(lines[0].get_xdata()), [w[0] for w in uv], "positions so far in the image")
            S.eq(known(lines[0].get_ydata()), [w[1] for w in uv], "positions so far in the image")
            at(S, lines[1], [uv[-1][0]], [uv[-1][1]], "position in the image")
            window(S, axes[1], uv[-1], isize, "image about the position")
            shows(S, axes[1].images[0], obs.images[k], snapped(S, uv[-1], isize), "frame")
            dots = list(axes[1].collections)
            S.check(len(dots) == (1 if c.get("particles") else 0), "particles of this frame only")
            if c.get("particles"):
                S.eq([list(o) for o in dots[0].get_offsets()], [seen(r) for r in P], "particles in the image")
                S.eq(list(np.asarray(dots[0].get_array())), list(W[1, i]), "weights of particles")
                S.check([float(v) for v in dots[0].get_clim()] == limits, "colors of weights")
    S.reach()


OTHER = [(10, 8), SZ, SZ]
HARNESSES = [
    H("aligned", aligned, [dict(), dict(frames=[2, 0], size=(2, 4)), dict(middle=True, frames=[1, 2]), dict(far=6.0, frames=[0, 2], size=(2, 2)), dict(far=20.0, frames=[0, 2]), dict(sizes=OTHER, frames=[0, 1]), dict(sizes=[(4, 4), SZ, SZ], frames=[1, 2])],
      thorough=[dict(wide=True), dict(wide=True, sizes=OTHER, frames=[0, 1])], budget_s=120, bounds="3 images of 8x6 pixels (and other sizes) shifted by up to 2 pixels or beyond the image, any point"),
    H("followed", followed, [dict(), dict(frames=[2, 0]), dict(frames=[1, 0, 2], as_array=True, size=(2, 4)), dict(sizes=[(4, 3), SZ, SZ], frames=[1, 2])],
      thorough=[dict(wide=True), dict(wide=True, frames=[1, 2])], budget_s=120, bounds="3 images of 8x6 pixels, 2-3 positions anywhere near the center"),
    H("trajectory", trajectory, [dict(), dict(particles=True), dict(images=[None, 0, 1, 2], unit=2), dict(missing=[1], images=[3, 0, 1, 2]), dict(tracker=False), dict(show=False, particles=True), dict(particles=True, missing=[0]), dict(frames=[1, 3, 2]), dict(images=[0, 1, None, 3], particles=True, tracker=False)],
      thorough=[dict(wide=True), dict(wide=True, particles=True, missing=[2])], budget_s=120, bounds="2 tracks of 4 times, any positions near the center of images of 8x6 pixels, 2 particles"),
]
