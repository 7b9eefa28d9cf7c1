"""Motion models: how particles start, move and are weighted."""
import datetime
import itertools

import numpy as np

from symx.runner import H

import glimpse
from glimpse import track
from glimpse.track import motion as module
from props.common import matched, patch_interpolation, patch_random

ASSUMPTIONS = ["np.random draws are arbitrary numbers in [-4, 4]"]
C, B = "Cartesian", "Cylindrical"
# directions of motion, of known length
DIRS = [(3, 4, 5), (-1, 0, 1), (7, -24, 25)]

# far from the origin, and not on a coarse lattice
FAR = (431250.0 + 2**-10, 7100000.0 + 2**-10)


def local(xy, base):
    return xy[0] - base[0], xy[1] - base[1]


def surfaces(S, kind):
    """The surface and its uncertainty: rasters, numbers, or none."""
    patch_interpolation(S)
    b = S.config.get("base", (0, 0))

    def plane(xy, b=b):
        x, y = local(xy, b)
        return 100 + x / 2 - y / 4

    def spread(xy, b=b):
        return 1 + local(xy, b)[0] / 16

    c = np.array([4.0, 16.0])
    X, Y = np.meshgrid(c, c[::-1])
    kw = dict(x=(b[0] - 2, b[0] + 22), y=(b[1] + 22, b[1] - 2))
    heights, spreads = plane((X, Y), (0, 0)), spread((X, Y), (0, 0))
    if kind == "rasters":
        return glimpse.Raster(heights, **kw), glimpse.Raster(spreads, **kw), plane, spread
    if kind == "none":
        return glimpse.Raster(heights, **kw), None, plane, lambda xy: 0.0
    if kind == "zero":
        return glimpse.Raster(heights, **kw), 0, plane, lambda xy: 0.0
    h, s = S.real("h", -8, 8), S.real("s", 2**-4, 4)
    return h, s, lambda xy: h, lambda xy: s


def model(S, n, v=True, kind=None, **kw):
    """Any model with any parameters. Returns the model and what it should be."""
    name = S.config["model"]
    tangent = name.startswith("Tangent")
    cyl = name.endswith(B + "Motion")
    dims = 2 if tangent else 3
    xy = S.reals("xy", 2, 9, 11) + np.array(S.config.get("base", (0, 0)))
    sxy = S.reals("sxy", 2, 2**-4, 0.25)
    unit = datetime.timedelta(hours=S.config.get("unit", 24))
    dem, sd, dem_at, sd_at = surfaces(S, kind or S.config.get("surface", "rasters"))
    names = {(True, False): ("vxy", "axy"), (False, False): ("vxyz", "axyz"), (True, True): ("vrth", "arth"), (False, True): ("vrthz", "arthz")}[tangent, cyl]
    p = {}
    for k, m in zip(names, ("v", "a")):
        lim = 4 if m == "v" else 2
        p[m] = S.reals(m, dims, -lim, lim)
        p["s" + m] = S.reals("s" + m, dims, 2**-4, 1)
        if m == "v" and not v:
            p[m], p["s" + m] = np.zeros(dims), np.zeros(dims)
        kw[k], kw[k + "_sigma"] = p[m], p["s" + m]
    m = getattr(track, name)(xy=xy, time_unit=unit, dem=dem, dem_sigma=sd, n=n, xy_sigma=sxy, **kw)
    p.update(xy=xy, sxy=sxy, unit=unit, dem=dem_at, sd=sd_at, tangent=tangent, cyl=cyl, dims=dims)
    return m, p


def start(S):
    """Means plus standard deviations times draws of their own, on the surface."""
    n = 2
    m, p = model(S, n)
    d = patch_random(S, module)
    if p["cyl"]:
        # directions with no spread, so that cosines are known
        k = S.config.get("dir", 0)
        c, s, l = DIRS[k]
        th = np.arctan2(s, c)
        c, s = c / l, s / l
        (m.vrth if p["tangent"] else m.vrthz)[1] = th
        (m.vrth_sigma if p["tangent"] else m.vrthz_sigma)[1] = 0.0
    P = m.initialize_particles()
    S.check(tuple(P.shape) == (n, 6), "shape")
    want = []
    for q in P:
        for k in range(2):
            want.append(lambda z, q=q, k=k: p["xy"][k] + p["sxy"][k] * z - q[k])
        if S.config.get("surface") not in ("none", "zero"):
            want.append(lambda z, q=q: p["dem"](q) + p["sd"](q) * z - q[2])
        else:
            S.eq(q[2], p["dem"](q), "on the surface")
        v = [q[3], q[4], q[5]]
        if p["cyl"]:
            along, across = v[0] * c + v[1] * s, v[1] * c - v[0] * s
            S.eq(across, 0.0, "direction of velocity")
            want.append(lambda z, w=along: p["v"][0] + p["sv"][0] * z - w)
            rest = {2: v[2]}
        else:
            rest = dict(enumerate(v))
        for k, w in rest.items():
            if k < p["dims"]:
                want.append(lambda z, w=w, k=k: p["v"][k] + p["sv"][k] * z - w)
            else:
                S.eq(w, 0.0, "no vertical velocity relative to the surface")
    matched(S, want, d.normals, "a draw for each component of each particle")
    S.reach()


def turn(S):
    """Angles with any spread: speed and direction of the drawn polar velocity."""
    m, p = model(S, 1)
    d = patch_random(S, module)
    P = m.initialize_particles()
    q = P[0]
    pairs = [(a, b) for a in d.normals for b in d.normals if a is not b]
    found = False
    for a, b in pairs:
        r, th = p["v"][0] + p["sv"][0] * a, p["v"][1] + p["sv"][1] * b
        if S.same(q[3], r * S.cos(th)) and S.same(q[4], r * S.sin(th)):
            found = True
            break
    S.check(found, "velocity from speed and direction")
    S.reach()


def evolve(S):
    """Constant acceleration over any time, forward or backward."""
    n = S.config.get("n", 2)
    m, p = model(S, n)
    m.slope_sigma = 0.0
    d = patch_random(S, module)
    dt = S.timedelta("dt", -(2**20), 2**20, unit=2**15)
    t = S.us(dt) / (p["unit"].total_seconds() * 1e6)
    S.assume(S.or_(t >= 2**-10, t <= -(2**-10)))
    S.assume(S.and_(t <= 0.5, t >= -0.5))
    P0 = []
    speed = []
    for i in range(n):
        xy = S.reals("p%d" % i, 2, 8, 12) + np.array(S.config.get("base", (0, 0)))
        z = S.real("z%d" % i, 90, 110)
        if p["cyl"]:
            c, s, l = DIRS[(S.config.get("dir", 0) + i) % 3]
            r = S.real("r%d" % i, 2**-4, 2**-4 if l > 5 else 0.25)
            speed.append(r)
            v = [r * c, r * s]
        else:
            v = [S.real("vx%d" % i, -2, 2), S.real("vy%d" % i, -2, 2)]
        P0.append([xy[0], xy[1], z, v[0], v[1], 0.0 if p["tangent"] else S.real("vz%d" % i, -2, 2)])
    P = S.array(P0)
    out = m.evolve_particles(P, dt=dt)
    S.check(out is None, "in place")
    S.check(tuple(P.shape) == (n, 6), "shape")
    want = []
    for i, (q, o) in enumerate(zip(P, P0)):
        dv = [q[3 + k] - o[3 + k] for k in range(3)]
        for k in range(2 if p["tangent"] else 3):
            S.eq(q[k] - o[k], t * (o[3 + k] + dv[k] / 2), "moves at the mean velocity")
        if p["tangent"]:
            S.eq(q[2] - p["dem"](q), o[2] - p["dem"](o), "keeps its height above the surface")
            S.eq(dv[2], 0.0, "no vertical velocity relative to the surface")
        if p["cyl"]:
            c, s, l = DIRS[(S.config.get("dir", 0) + i) % 3]
            want.append(lambda z, l=l, w=dv[0] * c + dv[1] * s: t * l * (p["a"][0] + p["sa"][0] * z) - w)
            want.append(lambda z, l=l, w=dv[1] * c - dv[0] * s, r=speed[i]: t * r * l * l * (p["a"][1] + p["sa"][1] * z) - w)
            rest = [2]
        else:
            rest = [0, 1, 2]
        for k in rest:
            if k < p["dims"]:
                want.append(lambda z, k=k, w=dv[k]: t * (p["a"][k] + p["sa"][k] * z) - w)
    matched(S, want, d.normals, "an acceleration for each component of each particle")
    S.reach()


def slope(S):
    """Random walk of heights in proportion to the distance moved."""
    m, p = model(S, 1)
    name = "arth" if p["cyl"] else "axy"
    a = S.real("acc", 0, 2)
    setattr(m, name, S.array([a, 0.0]))
    setattr(m, name + "_sigma", np.zeros(2))
    m.slope_sigma = S.real("slope", 2**-4, 1)
    d = patch_random(S, module)
    k = S.choice("dir", [0, 1, 2])
    c, s, l = DIRS[k]
    r = S.real("r", 2**-4, 0.125)
    if not p["cyl"]:
        setattr(m, name, S.array([a / l * c, a / l * s]))
    z0 = S.real("z0", 90, 110)
    o = [10.0, 10.0, z0, r * c, r * s, 0.0]
    P = S.array([o])
    dt = S.timedelta("dt", -(2**20), 2**20, unit=2**15)
    t = S.us(dt) / (p["unit"].total_seconds() * 1e6)
    S.assume(S.or_(t >= 2**-10, t <= -(2**-10)))
    S.assume(S.and_(t <= 0.5, t >= -0.5))
    S.assume(S.abs(a * t) <= 2**-5)
    m.evolve_particles(P, dt=dt)
    q = P[0]
    step = t * (r * l + a * t / 2)
    dist = step if t > 0 else -step
    S.eq((q[0] - o[0]) * l, step * c, "moves ahead")
    S.eq((q[1] - o[1]) * l, step * s, "moves ahead")
    matched(S, [lambda z: (z0 - p["dem"](o)) + m.slope_sigma * z * dist - (q[2] - p["dem"](q))], d.normals, "height changes by slope times distance")
    S.reach()


def rest(S):
    """Particles at rest stay there without acceleration."""
    m, p = model(S, 2)
    for k in ("axyz", "arthz", "axy", "arth"):
        if hasattr(m, k):
            setattr(m, k, np.zeros(p["dims"]))
            setattr(m, k + "_sigma", np.zeros(p["dims"]))
    patch_random(S, module)
    xy, z = S.reals("p", 2, 9, 11), S.real("z", 90, 110)
    r = S.real("r", 0, 2)
    P = S.array([[xy[0], xy[1], z, 0.0, 0.0, 0.0], [xy[1], xy[0], z, r, 0.0, 0.0]])
    dt = S.timedelta("dt", -(2**20), 2**20, unit=2**15)
    t = S.us(dt) / (p["unit"].total_seconds() * 1e6)
    S.assume(S.and_(t <= 0.5, t >= -0.5))
    m.evolve_particles(P, dt=dt)
    S.eq(P[0], S.array([xy[0], xy[1], z, 0.0, 0.0, 0.0]), "at rest")
    S.eq(P[1, 0], xy[1] + r * t, "moves ahead")
    S.eq(P[1, 3:], S.array([r, 0.0, 0.0]), "keeps its velocity")
    S.reach()


def back(S):
    """Without random accelerations, forward and back again returns."""
    m, p = model(S, 1)
    name = [k for k in ("axyz", "axy") if hasattr(m, k)][0]
    setattr(m, name + "_sigma", np.zeros(p["dims"]))
    m.slope_sigma = 0.0
    patch_random(S, module)
    o = S.array([[S.real("x", 9, 11), S.real("y", 9, 11), S.real("z", 90, 110), S.real("vx", -2, 2), S.real("vy", -2, 2), 0.0 if p["tangent"] else S.real("vz", -2, 2)]])
    P = o.copy()
    dt = S.timedelta("dt", -(2**20), 2**20, unit=2**15)
    t = S.us(dt) / (p["unit"].total_seconds() * 1e6)
    S.assume(S.and_(t <= 0.5, t >= -0.5))
    m.evolve_particles(P, dt=dt)
    m.evolve_particles(P, dt=-dt)
    S.eq(P, o, "returns")
    S.reach()


def likelihood(S):
    """Squared distance from the surface in units of its uncertainty."""
    m, p = model(S, 2)
    patch_random(S, module)
    P = S.array([[S.real("x%d" % i, 8, 12), S.real("y%d" % i, 8, 12), S.real("z%d" % i, 90, 110), 0.0, 0.0, 0.0] for i in range(2)])
    o = P.copy()
    out = m.compute_log_likelihoods(P)
    kind = S.config.get("surface", "rasters")
    if p["tangent"] or kind == "none":
        S.check(out is None, "none")
    elif kind == "zero":
        S.eq(out, np.zeros(2), "no uncertainty")
    else:
        for q, l in zip(P, out):
            d = q[2] - p["dem"](q)
            S.eq(l * 2 * p["sd"](q) ** 2, d * d, "squared distance")
    S.eq(P, o, "particles unchanged")
    S.reach()


def minimal(S):
    """The minimal model: one position, random velocities."""
    xy, sv = S.reals("xy", 2, -8, 8), S.reals("sv", 3, 2**-4, 2)
    unit = datetime.timedelta(hours=S.config["unit"])
    m = module.Motion(xy=xy, time_unit=unit, n=2, vxyz_sigma=sv)
    d = patch_random(S, module)
    P = m.initialize_particles()
    want = []
    for q in P:
        S.eq(q[:3], S.array([xy[0], xy[1], 0.0]), "position")
        want += [lambda z, k=k, q=q: sv[k] * z - q[3 + k] for k in range(3)]
    matched(S, want, d.normals, "a draw for each component of each particle")
    o = P.copy()
    dt = S.timedelta("dt", -(2**20), 2**20, unit=2**15)
    t = S.us(dt) / (unit.total_seconds() * 1e6)
    m.evolve_particles(P, dt=dt)
    S.eq(P[:, :3], o[:, :3] + o[:, 3:] * t, "moves at its velocity")
    S.eq(P[:, 3:], o[:, 3:], "velocity")
    S.check(m.compute_log_likelihoods(P) is None, "no likelihoods")
    S.reach()


def defaults(S):
    """What is not given is zero: particles start and move without it."""
    name, given = S.config["model"], S.config.get("given")
    unit = datetime.timedelta(hours=24)
    xy = S.reals("xy", 2, 9, 11) + np.array(S.config.get("base", (0, 0)))
    dt = S.timedelta("dt", -(2**20), 2**20, unit=2**15)
    t = S.us(dt) / (unit.total_seconds() * 1e6)
    S.assume(S.and_(t <= 0.5, t >= -0.5))
    d = patch_random(S, module)
    dem, _, dem_at, _ = surfaces(S, "none")
    if name == "Motion":
        m = module.Motion(xy=xy, time_unit=unit, n=2)
        dem_at, tangent, cyl, dims = lambda q: 0.0, False, False, 3
    else:
        tangent, cyl = name.startswith("Tangent"), name.endswith(B + "Motion")
        dims = 2 if tangent else 3
        kw = {}
        if given in ("v", "a"):
            x = S.reals(given, dims, -2, 2)
            if cyl:
                x[1] = 0.0
                if given == "v":
                    x[0] = S.real("speed", 2**-4, 2)
            kw[given + {(True, False): "xy", (False, False): "xyz", (True, True): "rth", (False, True): "rthz"}[tangent, cyl]] = x
        elif given == "xy_sigma":
            kw[given] = S.reals("s", 2, 2**-4, 0.25)
        m = getattr(track, name)(xy=xy, time_unit=unit, dem=dem, n=2, **kw)
    P = m.initialize_particles()
    S.check(tuple(P.shape) == (2, 6), "as many particles as asked for")
    v = [0.0, 0.0, 0.0]
    if given == "v":
        v = [x[0], 0.0 if cyl else x[1], x[2] if dims == 3 else 0.0]
    for q in P:
        S.eq(q[3:], S.array(v), "velocity")
        S.eq(q[2], dem_at(q), "on the surface")
        if given != "xy_sigma":
            S.eq(q[:2], xy, "position")
    if given == "xy_sigma":
        want = [lambda z, q=q, k=k: xy[k] + kw["xy_sigma"][k] * z - q[k] for q in P for k in range(2)]
        matched(S, want, d.normals, "a draw for each coordinate")
    o = P.copy()
    m.evolve_particles(P, dt=dt)
    a = [0.0, 0.0, 0.0]
    if given == "a":
        # speed changes; particles at rest have no direction
        a = [0.0 if cyl else x[0], 0.0 if cyl else x[1], x[2] if dims == 3 else 0.0]
        if cyl:
            P, o = S.array([[xy[0], xy[1], 100.0, 0.5, 0.0, 0.0]]), S.array([[xy[0], xy[1], 100.0, 0.5, 0.0, 0.0]])
            a = [x[0], 0.0, a[2]]
            m.evolve_particles(P, dt=dt)
    for q, p in zip(P, o):
        for k in range(3):
            S.eq(q[3 + k], p[3 + k] + a[k] * t, "velocity after a time")
            if k < 2 or not tangent:
                S.eq(q[k], p[k] + t * (p[3 + k] + a[k] * t / 2), "position after a time")
        if tangent:
            S.eq(q[2] - dem_at(q), p[2] - dem_at(p), "height above the surface")
    S.check(m.compute_log_likelihoods(P) is None, "no likelihoods")
    S.reach()


ALL = ["CartesianMotion", "CylindricalMotion", "TangentCartesianMotion", "TangentCylindricalMotion"]
KINDS = ["rasters", "numbers", "none", "zero"]
HARNESSES = [
    H("start", start, [dict(model=m, surface=k, dir=i % 3) for i, (m, k) in enumerate(itertools.product(ALL, KINDS))] + [dict(model=m, base=FAR) for m in ALL], bounds="2 particles, any means, spreads and draws"),
    H("turn", turn, [dict(model=m) for m in ALL if B in m], bounds="1 particle"),
    H("evolve", evolve, [dict(model=m, unit=u) for m in ALL for u in (24, 1)] + [dict(model=m, unit=24, dir=1, surface="numbers") for m in ALL] + [dict(model=m, base=FAR) for m in ALL], bounds="2 particles, any accelerations, draws and time"),
    H("slope", slope, [dict(model=m) for m in ALL if "Tangent" in m], bounds="1 particle, any speed, time and draws, 3 directions"),
    H("rest", rest, [dict(model=m) for m in ALL], bounds="2 particles, one at rest"),
    H("back", back, [dict(model=m) for m in ALL if "Cart" in m], bounds="1 particle, any time forward and back"),
    H("likelihood", likelihood, [dict(model=m, surface=k) for m in ALL for k in KINDS], bounds="2 particles anywhere"),
    H("defaults", defaults, [dict(model="Motion")] + [dict(model=m, given=g) for m in ALL for g in (None, "v", "a", "xy_sigma")] + [dict(model=m, given="v", base=FAR) for m in ALL] + [dict(model="Motion", base=FAR)], bounds="2 particles, any mean, time and one of the parameters"),
    H("minimal", minimal, [dict(unit=24), dict(unit=1)], bounds="2 particles"),
]
