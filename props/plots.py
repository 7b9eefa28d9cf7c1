"""matplotlib as recorded calls: real on the concrete run, stand-ins that keep what they are given on the symbolic one."""
import matplotlib

matplotlib.use("agg")
import matplotlib.animation
import matplotlib.patches
import matplotlib.pyplot as plt
import numpy as np


class Artist:
    """Something drawn, in axes."""

    def __init__(self, axes, args, kw):
        self.axes, self.args, self.kw = axes, args, kw

    def remove(self):
        for group in (self.axes.lines, self.axes.images, self.axes._collections, self.axes.patches):
            if self in group:
                group.remove(self)

    def set_alpha(self, v):
        pass


class Line(Artist):
    def __init__(self, axes, args, kw):
        super().__init__(axes, args, kw)
        self.x, self.y = args[:2]

    def set_data(self, x, y):
        self.x, self.y = x, y

    def set_xdata(self, x):
        self.x = x

    def set_ydata(self, y):
        self.y = y

    def get_xdata(self):
        return self.x

    def get_ydata(self):
        return self.y


class Picture(Artist):
    def __init__(self, axes, args, kw):
        super().__init__(axes, args, kw)
        self.array, self.extent = args[0], kw["extent"]
        axes.set_xlim(self.extent[0], self.extent[1])
        axes.set_ylim(self.extent[2], self.extent[3])

    def set_array(self, a):
        self.array = a

    set_data = set_array

    def get_array(self):
        return self.array

    def set_extent(self, e):
        self.extent = e

    def get_extent(self):
        return self.extent


def limits(kw):
    """Limits of colors, however they are given."""
    norm = kw.get("norm")
    if norm is not None:
        return norm.vmin, norm.vmax
    return kw.get("clim", (kw.get("vmin"), kw.get("vmax")))


class Arrows(Artist):
    def __init__(self, axes, args, kw):
        super().__init__(axes, args, kw)
        self.X, self.Y, self.U, self.V = (np.ravel(a) if np.ndim(a) else [a] for a in args[:4])
        self.C = args[4] if len(args) > 4 else None

    def get_array(self):
        return self.C

    def get_clim(self):
        return limits(self.kw)


class Dots(Artist):
    def get_offsets(self):
        return [[a, b] for a, b in zip(*self.args[:2])]

    def get_array(self):
        return self.kw.get("c")

    def get_clim(self):
        return limits(self.kw)


class Text(Artist):
    def __init__(self, axes, args, kw):
        super().__init__(axes, args, kw)
        self.text = args[2]

    def set_text(self, s):
        self.text = s

    def get_text(self):
        return self.text

    def set_x(self, v):
        pass

    set_y = set_x


class Axes:
    transAxes = None

    def __init__(self):
        self.lines, self.images, self._collections, self.texts, self.patches = [], [], [], [], []
        self.x, self.y = (0, 1), (0, 1)

    # as of matplotlib 3.7, artists are listed but cannot be set
    @property
    def collections(self):
        return list(self._collections)

    def _add(self, kind, group, args, kw):
        a = kind(self, args, kw)
        group.append(a)
        return a

    def plot(self, *args, **kw):
        return [self._add(Line, self.lines, args, kw)]

    def imshow(self, *args, **kw):
        return self._add(Picture, self.images, args, kw)

    def quiver(self, *args, **kw):
        return self._add(Arrows, self._collections, args, kw)

    def scatter(self, *args, **kw):
        return self._add(Dots, self._collections, args, kw)

    def text(self, *args, **kw):
        return self._add(Text, self.texts, args, kw)

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def set_xlim(self, a, b):
        self.x = a, b

    def set_ylim(self, a, b):
        self.y = a, b

    def get_xlim(self):
        return self.x

    def get_ylim(self):
        return self.y


CALLS = ("plot", "quiver", "scatter", "errorbar", "fill_between", "imshow", "xlim", "ylim")


class Calls(list):
    """Calls of pyplot, in order."""

    def of(self, *names):
        return [c for c in self if c[0] in names]


def recorded(S, existing=False):
    """Calls of pyplot (name, arguments, options, result), with or without a figure open."""
    calls = Calls()
    plt.close("all")
    if not S.symbolic and existing:
        plt.figure()
    if S.symbolic:
        S.patch(plt, "get_fignums", lambda: [1] if existing or calls.of(*CALLS[:6]) else [])

    def record(name):
        real = getattr(plt, name)

        def call(*args, **kw):
            if S.symbolic:
                out = Artist(None, args, kw)
                n = 1
                if name == "plot":
                    n = np.asarray(args[1]).shape[1] if np.ndim(args[1]) > 1 else 1
                    out = [Artist(None, args, kw) for _ in range(n)]
            else:
                out = real(*args, **kw)
            calls.append((name, args, kw, out))
            return out
        S.patch(plt, name, call)

    for name in CALLS:
        record(name)
    return calls


class Animation:
    def __init__(self, fig, func, frames=None, **kw):
        self.func, self.frames, self.kw = func, frames, kw

    def show(self, i):
        return self.func(i)


def animated(S):
    """Animations as functions of the frame, with the axes they are drawn in."""
    plt.close("all")
    made = []
    S.patch(matplotlib.animation, "FuncAnimation", Animation)
    real = plt.subplots

    def subplots(ncols=1, **kw):
        if S.symbolic:
            axes = [Axes() for _ in range(ncols)]
            out = None, axes if ncols > 1 else axes[0]
        else:
            out = real(ncols=ncols, **kw)
            axes = list(np.atleast_1d(out[1]))
        made.append(axes)
        return out

    S.patch(plt, "subplots", subplots)
    return made


def arrows(q):
    """Rows of x, y, dx, dy."""
    return [[a, b, c, d] for a, b, c, d in zip(*(np.ravel(np.asarray(v)) if not isinstance(v, list) else v for v in (q.X, q.Y, q.U, q.V)))]
