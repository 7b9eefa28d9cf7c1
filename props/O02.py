"""Parameters of cameras: selected, bounded, set, restored; what is then observed and predicted."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from glimpse import optimize
from glimpse.optimize import Cameras, Matches, Points

ASSUMPTIONS = ["lmfit.Parameters keeps parameters in the order added and their values within bounds (replays use the real one)"]
M = 2**-12
START = dict(xyz=(0, 3), viewdir=(3, 6), imgsz=(6, 8), f=(8, 10), c=(10, 12), k=(12, 18), p=(18, 20))


class Parameter:
    def __init__(self, name, value, min, max):
        self.name, self.min, self.max = name, min, max
        v = value
        if v > max:
            v = max
        if v < min:
            v = min
        self.value = v


class Parameters:
    """Named values within bounds, in order."""

    def __init__(self):
        self.all = {}

    def add(self, name, value=None, vary=True, min=-np.inf, max=np.inf, **k):
        assert name not in self.all
        self.all[name] = Parameter(name, value, min, max)

    def valuesdict(self):
        return {k: p.value for k, p in self.all.items()}

    def __len__(self):
        return len(self.all)

    def __iter__(self):
        return iter(self.all)

    def values(self):
        return self.all.values()

    def items(self):
        return self.all.items()

    def __getitem__(self, k):
        return self.all[k]


def stubs(S, minimize=None):
    if S.symbolic:
        par = type("parameter", (), dict(Parameters=Parameters))
        S.patch(optimize, "lmfit", type("lmfit", (), dict(Parameters=Parameters, parameter=par, minimize=staticmethod(minimize))))
    elif minimize:
        S.patch(optimize.lmfit, "minimize", minimize)


def expand(selection, n):
    """Positions selected, as documented."""
    if selection is True:
        return list(range(n))
    if selection is None or selection is False:
        return []
    return [int(i) % n for i in np.atleast_1d(np.asarray(selection, dtype=int))]


def parse(S):
    """Elements are selected by name and index; bounds are those given, else the defaults."""
    mask = [False] * 20
    lo, hi = [None] * 20, [None] * 20
    params = {}
    for key, (sel, lower, upper) in S.config["params"].items():
        a, b = START[key]
        at = expand(sel, b - a)
        for i in at:
            mask[a + i] = True
        if lower == "none" and upper == "none":
            params[key] = sel
            continue
        ends = []
        for side, how, out in ((0, lower, lo), (1, upper, hi)):
            name = "%s%d" % (key, side)
            if how == "one":
                v = S.real(name, -9, 0) if side == 0 else S.real(name, 1, 9)
                each = [v] * len(at)
            elif how == "each":
                v = [S.real(name + "_%d" % i, -9, 0) if side == 0 else S.real(name + "_%d" % i, 1, 9) for i in range(len(at))]
                each = v
            elif how == "inf":
                v = np.inf if side else -np.inf
                each = [v] * len(at)
            else:
                v = None if how == "None" else np.nan
                each = [None] * len(at)
            ends.append(v)
            for i, w in zip(at, each):
                out[a + i] = w
        params[key] = (sel,) + tuple(ends)
    kept = {k: v for k, v in params.items()}
    defaults = None
    if S.config.get("defaults"):
        defaults = S.array([[S.real("d%d" % i, -99, -10), S.real("e%d" % i, 10, 99)] for i in range(20)])
    got, bounds = Cameras.parse_params(params, default_bounds=defaults) if defaults is not None else Cameras.parse_params(params)
    S.check([bool(v) for v in got] == mask, "elements selected")
    S.check(tuple(bounds.shape) == (20, 2), "bounds for each")
    for i in range(20):
        for side, out in ((0, lo), (1, hi)):
            want = out[i] if out[i] is not None else defaults[i, side] if defaults is not None else (np.inf if side else -np.inf)
            if isinstance(want, float) and np.isinf(want):
                S.check(bool(bounds[i, side] == want), "no bound")
            elif isinstance(bounds[i, side], float) and not np.isfinite(bounds[i, side]):
                S.check(False, "a bound")
            else:
                S.eq(bounds[i, side], want, "bound")
    S.check(all(params[k] is kept[k] for k in kept), "arguments unchanged")
    S.reach()


def scene(S, groups=None, cams=2):
    """Cameras with any of the parameters used, with control of points and of matches."""
    C = []
    for i in range(cams):
        C.append(glimpse.Camera(imgsz=(8, 6), f=(S.real("f%d0" % i, 2, 4), S.real("f%d1" % i, 2, 4)), c=(S.real("c%d0" % i, -1, 1), S.real("c%d1" % i, -1, 1)),
                                xyz=(0, 0, 0)))
    controls = [Points(cam=C[i], uv=S.reals("uv%d" % i, (1 + i % 2, 2), 0, 6), xyz=np.array([[1.0, 4.0, 0.5], [-1.0, 2.0, 0.5]])[:1 + i % 2], directions=True) for i in range(cams)]
    if S.config.get("matches"):
        controls.append(Matches(cams=C[:2], uvs=[S.reals("m%d" % i, (1, 2), 1, 5) for i in range(2)]))
    return C, controls


def order(S, C, masks_cam, groups, masks_group):
    """What each parameter is: (cameras, element), in order."""
    out = []
    for g, idx in enumerate(groups):
        for e in masks_group[g]:
            out.append((list(idx), e))
    for i in range(len(C)):
        for e in masks_cam[i]:
            out.append(([i], e))
    return out


def elements(params):
    out = []
    for key, (a, b) in START.items():
        if key in params:
            sel = params[key]
            sel = sel[0] if isinstance(sel, tuple) else sel
            out += [a + i for i in expand(sel, b - a)]
    return sorted(set(out))


def build(S, **k):
    C, controls = scene(S, cams=S.config.get("cams", 2))
    cp, gi, gp = S.config.get("cam_params"), S.config.get("groups"), S.config.get("group_params")
    model = Cameras(cams=C, controls=controls, cam_params=cp, group_indices=gi, group_params=gp, scales=False, sparsity=False, **k)
    cp = [{}] * len(C) if cp is None else [cp] if isinstance(cp, dict) else cp
    gi = [range(len(C))] if gi is None else gi
    gi = [gi] if isinstance(gi[0], int) else gi
    gp = [{}] * len(gi) if gp is None else [gp] if isinstance(gp, dict) else gp
    what = order(S, C, [elements(p) for p in cp], gi, [elements(p) for p in gp])
    return C, controls, model, what


def vector(S, what, name="x"):
    lo = {8: (1, 5), 9: (1, 5)}
    return [S.real("%s%d" % (name, n), *lo.get(e, (-1, 1))) for n, (idx, e) in enumerate(what)]


def changed(before, what, x):
    after = [list(v) for v in before]
    for (idx, e), v in zip(what, x):
        for i in idx:
            after[i][e] = v
    return after


def state(S, C, want, label):
    for cam, w in zip(C, want):
        S.eq(cam.to_array(), list(w), label)


def cameras(S):
    """Setting changes exactly the elements selected, resetting restores, and predictions leave no trace."""
    stubs(S)
    C, controls, model, what = build(S)
    saved = [list(cam.to_array()) for cam in C]
    # initial values: of the camera, or the mean of those in the group
    init = list(model.params.valuesdict().values())
    S.check(len(init) == len(what), "one parameter for each element selected")
    for (idx, e), v in zip(what, init):
        S.eq(v * len(idx), sum(saved[i][e] for i in idx), "initial values")
    now = [list(v) for v in saved]
    for n, step in enumerate(S.config["steps"]):
        if step in ("set", "save"):
            x = vector(S, what, "x%d_" % n)
            model.set_cameras(x if n % 2 == 0 else S.array(x), save=(step == "save"))
            now = changed(now, what, x)
            if step == "save":
                saved = [list(v) for v in now]
        elif step == "reset":
            model.reset_cameras()
            now = [list(v) for v in saved]
        elif step == "edit":
            C[0].c[1] = now[0][11] = S.real("edit%d" % n, -1, 1)
        elif step == "update":
            model.update_params()
            got = list(model.params.valuesdict().values())
            for (idx, e), v in zip(what, got):
                S.eq(v * len(idx), sum(now[i][e] for i in idx), "values updated")
        else:
            x = vector(S, what, "x%d_" % n)
            idx = S.config.get("index", slice(None))
            want = []
            for i, P in enumerate(controls[:len(C)]):
                v = changed(now, what, x)[i]
                for X in np.asarray(P.xyz):
                    want.append([v[8 + j] * float(X[0] if j == 0 else -X[2]) / float(X[1]) + v[6 + j] / 2 + v[10 + j] for j in range(2)])
            if len(controls) > len(C):
                a, b = [changed(now, what, x)[i] for i in range(2)]
                p = controls[-1].uvs[1][0]
                want.append([(p[j] - b[6 + j] / 2 - b[10 + j]) / b[8 + j] * a[8 + j] + a[6 + j] / 2 + a[10 + j] for j in range(2)])
            want = [want[i] for i in np.arange(len(want))[idx]]
            got = model.predicted(params=x, index=idx)
            S.eq(got, want, "predicted with parameters")
        state(S, C, now, "cameras after " + step)
    S.reach()


def residuals(S):
    """Residuals are the weighted differences, errors their lengths."""
    stubs(S)
    C, controls = scene(S)
    n = sum(c.size for c in controls)
    w = [S.real("w%d" % i, 0.5, 4) for i in range(n)] if S.config.get("weights") else None
    given = None if w is None else S.array(w) if S.config["weights"] == "array" else w
    model = Cameras(cams=C, controls=controls, cam_params=[{"c": True}, {"f": 0}], weights=given, scales=False, sparsity=False)
    S.check(int(model.size) == n, "size")
    idx = S.config.get("index", slice(None))
    sel = list(np.arange(n)[idx])
    obs = [list(uv) for c in controls[:2] for uv in c.uv] + ([list(controls[2].uvs[0][0])] if len(controls) > 2 else [])
    pred = [list(uv) for c in controls for uv in c.predicted()]
    S.eq(model.observed(index=idx), [obs[i] for i in sel], "observed")
    S.eq(model.predicted(index=idx), [pred[i] for i in sel], "predicted")
    r = model.residuals(index=idx)
    S.check(tuple(r.shape) == (len(sel), 2), "shape of residuals")
    for g, i in zip(r, sel):
        for j in range(2):
            d = pred[i][j] - obs[i][j]
            if w is None:
                S.eq(g[j], d, "residuals")
            else:
                # weights relative to their mean
                S.eq(g[j] * sum(w), d * w[i] * n, "weighted residuals")
    e = model.errors(index=idx)
    for g, q in zip(e, r):
        S.check(g >= 0, "errors")
        S.eq(g * g, q[0] * q[0] + q[1] * q[1], "errors are lengths of residuals")
    S.reach()


def failed(S):
    """Predictions which fail leave no trace."""
    stubs(S)
    C, controls = scene(S)
    model = Cameras(cams=C, controls=controls, cam_params=[{"xyz": 0, "c": 1}, {}], scales=False, sparsity=False)
    before = [list(cam.to_array()) for cam in C]
    x = [S.real("x", 0.5, 2), S.real("c", -1, 1)]
    S.raises(ValueError, lambda: model.predicted(params=x), "directions seen from elsewhere")
    state(S, C, before, "cameras after failed prediction")
    S.raises(ValueError, lambda: model.errors(params=x), "directions seen from elsewhere")
    state(S, C, before, "cameras after failed prediction")
    S.reach()


def bounds(S):
    """Parameters of groups have the bounds given, else those shared by their cameras."""
    stubs(S)
    C, controls = scene(S)
    lo = [S.real("lo%d" % i, -1, -0.5) for i in range(2)]
    hi = [S.real("hi%d" % i, 1, 2) for i in range(2)]
    B = [Cameras.camera_bounds(cam) for cam in C]
    for b in B:
        for v in b:
            S.check(v[0] < v[1], "default bounds in order")
    model = Cameras(cams=C, controls=controls, cam_params=[{"c": (0, lo[0], hi[0]), "f": 1}, {"c": (0, lo[1], None)}], group_params=[{"c": (1, -5, hi[1]), "f": 0}], scales=False, sparsity=False)
    ps = list(model.params.values())
    f = [Cameras.camera_bounds(cam)[8:10] for cam in C]
    want = [(0, np.inf), (-5, hi[1]), (0, np.inf), (lo[0], hi[0]), (lo[1], B[1][10][1])]
    S.check(len(ps) == 5, "parameters")
    for p, (a, b) in zip(ps, want):
        for g, w in ((p.min, a), (p.max, b)):
            if isinstance(w, float) and np.isinf(w):
                S.check(bool(g == w), "no bound")
            else:
                S.eq(g, w, "bounds")
    # bounds of cameras are those of the group
    model = Cameras(cams=C, controls=controls, cam_params=[{"c": (1, lo[0], hi[0])}, {"c": (1, lo[1], hi[1])}], group_params=[{"c": True}], scales=False, sparsity=False)
    p = list(model.params.values())[1]
    S.eq(p.min, S.max(*lo), "bounds shared")
    S.eq(p.max, S.min(*hi), "bounds shared")
    S.reach()


N = ("none", "none")
PARSE = [
    dict(params={"viewdir": (True,) + N, "f": (0,) + N, "k": ([0, 3],) + N}),
    dict(params={"viewdir": ([0, 1], "inf", "one"), "c": (1, "each", "each")}, defaults=True),
    dict(params={"xyz": (True, "one", "each"), "p": (True, "None", "one")}, defaults=True),
    dict(params={"f": (False,) + N, "c": (None,) + N, "xyz": (2,) + N}),
    dict(params={"k": ([1, 4], "nan", "None"), "imgsz": ([],) + N}, defaults=True),
    dict(params={"viewdir": (0, "one", "one"), "f": ([], "one", "one")}),
    dict(params={"viewdir": (0, "one", "one"), "f": (False, "one", "one")}, defaults=True),
    dict(params={"k": ([4, 1], "each", "each"), "xyz": (-1,) + N}),
    dict(params={"xyz": ([2, 0, 1], "each", "one"), "f": ([-1, 0], "inf", "each")}, defaults=True),
    dict(params={}),
]
ONE = [{"c": True}, {"f": [0]}]
HARNESSES = [
    H("parse", parse, PARSE, bounds="several selections with any bounds"),
    H("cameras", cameras, [
        dict(cam_params=ONE, steps=["set", "edit", "reset", "set", "edit", "reset"]), dict(cam_params=ONE, group_params={"f": 1}, steps=["predict", "set", "predict", "save", "set", "reset"], matches=True),
        dict(group_params=[{"c": 1}, {"f": True}], groups=[[0, 1], [1]], cam_params=[{"c": 0}, {}], steps=["set", "update", "reset", "update"]),
        dict(cam_params=[{"c": 0}, {"f": 1}], group_params={"c": 1}, groups=[0], steps=["set", "predict", "reset"]),
        dict(cam_params=[{}, {"c": [1, 0]}, {"f": True}], cams=3, groups=[[0, 2], [1]], group_params=[{"c": 0}, {}], steps=["edit", "predict", "set"], index=[3, 0]),
        dict(group_params={"c": 0}, groups=[0, 1, 2], cams=3, cam_params=[{}, {"c": 1}, {}], steps=["set", "update", "edit", "update"]),
        dict(group_params={"f": False, "c": 1}, steps=["set"])],
      bounds="2-3 cameras with any parameters, several selections and groups, sequences of up to 6 operations"),
    H("residuals", residuals, [dict(), dict(weights="list", index=[2, 0]), dict(weights="array", matches=True), dict(index=slice(1, None), matches=True)], bounds="3-4 control points with any coordinates and weights"),
    H("failed", failed, bounds="any parameters"),
    H("bounds", bounds, bounds="any bounds of groups and cameras"),
]
