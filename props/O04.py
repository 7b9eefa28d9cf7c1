"""Fitting cameras: what the optimizer is given, and what is done with what it returns."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from glimpse import optimize
from glimpse.optimize import Cameras, Matches, Points
from props.O02 import Parameters, START, elements, expand, order, state, stubs

ASSUMPTIONS = ["lmfit.minimize calls the function and returns any values within the bounds (replays use this optimizer with the real lmfit.Parameters)"]


class Optimizer:
    """Returns any parameters; keeps what it was given."""

    def __init__(self, S):
        self.S, self.calls = S, []

    def __call__(self, fcn, params, method="leastsq", args=None, kws=None, iter_cb=None, scale_covar=True, nan_policy="raise", **kwargs):
        S = self.S
        n = len(self.calls)
        kws = kws or {}
        start = list(params.valuesdict().values())
        bounds = [(p.min, p.max) for p in params.values()]
        first = fcn(params, **kws)
        new = type(params)()
        values = []
        for i, (name, p) in enumerate(params.items()):
            v = S.real("fit%d_%s" % (n, name), -1, 1) if "c" in name.split("_")[1] else S.real("fit%d_%s" % (n, name), 1, 5)
            S.assume(S.and_(v >= p.min, v <= p.max))
            values.append(v)
            new.add(name, value=v, vary=True, min=p.min, max=p.max)
        last = fcn(new, **kws)
        if iter_cb:
            iter_cb(new, 0, np.array(last.tolist(), dtype=float) if not S.symbolic else np.zeros((1, 2)))
        ok = S.config.get("success", (True,) * 9)[n]
        self.calls.append(dict(start=start, bounds=bounds, values=values, first=first, last=last, method=method, policy=nan_policy, extra=kwargs, ok=ok))
        return type("Result", (), dict(params=new, success=ok, message="message"))()


def quiet(S):
    import io

    S.patch(optimize.sys, "stdout", io.StringIO())


def fit(S):
    """What the optimizer is given and what is done with its result: cameras, parameters, return values."""
    quiet(S)
    optimizer = Optimizer(S)
    stubs(S, minimize=optimizer)
    n = S.config.get("cams", 2)
    C = [glimpse.Camera(imgsz=(8, 6), f=(2.5, 3.0) if S.config.get("scales") else (S.real("f%d0" % i, 2, 4), S.real("f%d1" % i, 2, 4)), c=(S.real("c%d" % i, -1, 1), 0.5)) for i in range(n)]
    X = np.array([[1.0, 4.0, 0.5], [-1.0, 2.0, 0.5]])
    controls = [Points(cam=C[i], uv=S.reals("uv%d" % i, (2 - i % 2, 2), 0, 6), xyz=X[:2 - i % 2], directions=True) for i in range(n)]
    if S.config.get("matches"):
        controls.append(Matches(cams=C[:2], uvs=[S.reals("m%d" % i, (1, 2), 1, 5) for i in range(2)]))
    size = sum(c.size for c in controls)
    w = [S.real("w%d" % i, 0.5, 4) for i in range(size)] if S.config.get("weights") else None
    if w is not None:
        # weights are relative to their mean
        S.assume(sum(w) == size)
    cp, gi, gp = S.config.get("cam_params"), S.config.get("groups"), S.config.get("group_params")
    scaled, sparse = S.config.get("scales", False), S.config.get("sparsity", True)
    model = Cameras(cams=C, controls=controls, cam_params=cp, group_indices=gi, group_params=gp, weights=w, scales=scaled, sparsity=sparse)
    full_cp = [{}] * n if cp is None else cp
    full_gi = [range(n)] if gi is None else gi
    full_gp = [{}] * len(full_gi) if gp is None else gp

    def what_of(cps, gps):
        return order(S, C, [elements(p) for p in cps], full_gi, [elements(p) for p in gps])

    what = what_of(full_cp, full_gp)
    if S.config.get("edit"):
        # current state is not that saved
        x = [S.real("x%d" % i, 1, 2) for i in range(len(what))]
        model.set_cameras(x)
        model.update_params()
    before = [list(cam.to_array()) for cam in C]
    idx = S.config.get("index")
    kw = {} if idx is None else dict(index=idx)
    sel = list(np.arange(size)[slice(None) if idx is None else idx])
    stages = S.config.get("stages")
    if stages:
        kw.update({k: v for k, v in stages.items()})
    method = S.config.get("method", "least_squares")
    if method != "least_squares":
        kw["method"] = method
    if S.config.get("extra"):
        kw.update(S.config["extra"])
    full = bool(S.config.get("full"))
    result = model.fit(full=full, **kw)
    # stages in turn, each from the outcome of those before
    m = len(next(iter(stages.values()))) if stages else 0
    S.check(len(optimizer.calls) == m + 1, "optimizations")
    now = [list(v) for v in before]

    def residuals(values, what):
        # differences with these parameters
        at = [list(v) for v in now]
        for (ids, e), v in zip(what, values):
            for i in ids:
                at[i][e] = v
        out = []
        for i, c in enumerate(controls):
            if isinstance(c, Matches):
                a, b = at[0], at[1]
                p, q = c.uvs[1][0], c.uvs[0][0]
                rows = [([(p[j] - b[6 + j] / 2 - b[10 + j]) / b[8 + j] * a[8 + j] + a[6 + j] / 2 + a[10 + j] for j in range(2)], q)]
            else:
                v = at[i]
                rows = [([v[8 + j] * float(x[0] if j == 0 else -x[2]) / float(x[1]) + v[6 + j] / 2 + v[10 + j] for j in range(2)], uv) for x, uv in zip(c.xyz, c.uv)]
            out += [[a[j] - b[j] for j in range(2)] for a, b in rows]
        if w is not None:
            out = [[v * k for v in r] for r, k in zip(out, w)]
        return [out[i] for i in sel], at

    for k, call in enumerate(optimizer.calls):
        if k < m:
            cps = stages["cam_params"][k] if "cam_params" in stages else full_cp
            gps = stages["group_params"][k] if "group_params" in stages else full_gp
            its = what_of(cps, gps)
        else:
            its = what
        S.check(len(call["start"]) == len(its), "number of parameters")
        for (ids, e), v in zip(its, call["start"]):
            S.eq(v * len(ids), sum(now[i][e] for i in ids), "initial values")
        want, _ = residuals(call["start"], its)
        S.eq(call["first"], want, "residuals of initial values")
        want, after = residuals(call["values"], its)
        S.eq(call["last"], want, "residuals of any values")
        S.check(call["method"] == method, "method")
        extra = dict(call["extra"])
        S.check(call["policy"] == (S.config.get("extra") or {}).get("nan_policy", "omit"), "missing residuals omitted")
        for name, v in (S.config.get("extra") or {}).items():
            if name != "nan_policy":
                S.check(extra.pop(name) is v, "arguments passed on")
        if method == "least_squares" and sparse:
            A = np.asarray(extra.pop("jac_sparsity").todense())
            S.check(A.shape == (2 * len(sel), len(its)), "shape of structure")
            # rows of the residuals selected
            own = []
            for i, c in enumerate(controls):
                own += [[0, 1] if isinstance(c, Matches) else [i]] * c.size
            for r, i in enumerate(sel):
                for j, (ids, e) in enumerate(its):
                    S.check(bool(A[2 * r, j]) == bool(A[2 * r + 1, j]) == bool(set(own[i]) & set(ids)), "structure of the residuals selected")
        name = dict(least_squares="x_scale", leastsq="diag").get(method)
        if scaled and name:
            got = [float(v) for v in extra.pop(name)]
            S.check(len(got) == len(its), "scales of the parameters")
            one = [Cameras.camera_scales(cam, model.controls) for cam in C]
            own = [sum(float(one[i][e]) for i in ids) / len(ids) for ids, e in its]
            # (larger for parameters of smaller effect, or the reverse where the method takes it)
            S.check(any(np.allclose(got, [v**q for v in own]) for q in ((1,) if name == "x_scale" else (1, -1))), "scales of the parameters")
        S.check(not extra, "nothing else")
        if k < m and call["ok"]:
            now = after
    call = optimizer.calls[-1]
    if full:
        S.eq(list(result.params.valuesdict().values()), call["values"], "full result")
    elif call["ok"]:
        S.eq(result, call["values"], "values returned")
    else:
        S.check(result is None, "nothing returned without success")
    state(S, C, before, "cameras unchanged")
    for (ids, e), v in zip(what, model.params.valuesdict().values()):
        S.eq(v * len(ids), sum(before[i][e] for i in ids), "parameters unchanged")
    S.reach()


HARNESSES = [
    H("fit", fit, [
        dict(cam_params=[{"c": 0}, {"f": 1}], matches=True),
        dict(cam_params=[{"c": 0}, {}], group_params=[{"f": 1}], index=[2, 0], weights=True, success=(False,)),
        dict(group_params=[{"c": 0}, {"f": 0}], groups=[[0], [1]], index=slice(1, None), full=True, method="leastsq", sparsity=False),
        dict(cam_params=[{"c": 0}, {"c": 0, "f": 1}], stages=dict(cam_params=[[{"c": 0}, {}]])),
        dict(cam_params=[{"c": 0}, {}], group_params=[{"f": 0}], stages=dict(group_params=[[{}], [{"f": [0, 1]}]]), edit=True, matches=True),
        dict(cams=3, cam_params=[{"c": 0}] * 3, groups=[[0, 1], [2]], group_params=[{"f": 0}, {"f": 1}], stages=dict(cam_params=[[{}, {}, {"c": 0}]], group_params=[[{"f": 0}, {}]]), success=(False, True)),
        dict(cam_params=[{"c": 0}, {"f": 1}], stages=dict(cam_params=[[{"c": 0}, {}], [{"c": 0}, {"c": 0}]]), success=(True, False, True), index=[1, 2], weights=True),
        dict(cam_params=[{"c": 0}, {"f": 1}], extra=dict(x_scale=[1, 2], nan_policy="raise", tol=1), sparsity=False),
        dict(cam_params=[{"c": 0}, {"c": 0}], groups=[[0]], group_params=[{"f": 0}], edit=True, stages=dict(cam_params=[[{}, {"c": 0}]]), method="leastsq", sparsity=False),
        dict(cam_params=[{"c": 0}, {"f": 1}], scales=True, stages=dict(cam_params=[[{"c": 0}, {"c": 0, "f": [0, 1]}]])),
        dict(cam_params=[{"c": 0}, {"f": 1}], scales=True, stages=dict(cam_params=[[{}, {"c": 0}]]), method="leastsq"),
        dict(cam_params=[{"c": 0}, {"f": 1}], index=slice(1, None)),
        dict(cam_params=[{"c": 0}, {}], group_params=[{"f": 1}], groups=[[0, 1]], index=slice(None, None, -2), scales=True),
    ], bounds="2-3 cameras, any control, weights, initial and returned values, up to 3 stages"),
]
