"""Lens distortion."""
import itertools

import numpy as np

from symx.runner import H

import glimpse
from props.common import brown, camera

ASSUMPTIONS = [
    "iterative inversion (any coefficient beyond k1) is decided only at points which the lens leaves "
    "in place, where its iterates are exact; elsewhere it is outside the claim",
]
NAMES = ("k", "p")


def forward(S):
    """Distorted image coordinates follow the Brown-Conrady model, for any coefficients."""
    on = S.config["on"]
    k = [S.real("k%d" % (i + 1), -2, 2) if on[i] else 0 for i in range(6)]
    p = [S.real("p%d" % (i + 1), -2, 2) if on[6 + i] else 0 for i in range(2)]
    cam = camera(S, angles=False, pos=False, k=k, p=p)
    n = S.config.get("n", 1)
    q = S.reals("q", (n, 2), -2, 2)
    z = S.real("z", 0.125, 8)
    for i in range(n):
        r2 = q[i, 0] ** 2 + q[i, 1] ** 2
        den = 1 + k[3] * r2 + k[4] * r2 * r2 + k[5] * r2**3
        S.assume(S.or_(den >= 2**-6, den <= -(2**-6)))
    P = S.array([[q[i, 0] * z, z, -q[i, 1] * z] for i in range(n)])
    uv = cam.xyz_to_uv(P)
    for i in range(n):
        x, y = brown(S, k, p, q[i, 0], q[i, 1])
        S.eq(uv[i, 0], x * cam.f[0] + 3.5 + cam.c[0], "u with distortion", tol=1e-5)
        S.eq(uv[i, 1], y * cam.f[1] + 2.5 + cam.c[1], "v with distortion", tol=1e-5)
    S.reach()


def k1_inverse(S):
    """With k1 only, unprojecting then projecting returns the image coordinates."""
    k1 = S.real("k1", 2**-6, 2)
    if S.config["sign"] < 0:
        k1 = -k1
    cam = camera(S, angles=False, pos=False, k=(k1,))
    n = S.config.get("n", 1)
    # distorted camera coordinates, so that every image coordinate is covered
    d = S.reals("d", (n, 2), -2, 2)
    for i in range(n):
        h2 = d[i, 0] ** 2 + d[i, 1] ** 2
        if S.config.get("axis") == "x":
            S.assume(d[i, 0] == 0)
        elif S.config.get("axis") == "y":
            S.assume(d[i, 1] == 0)
        if S.config["sign"] < 0:
            # radii that a lens of this kind can produce: |k1| r'^2 < 4/27
            S.assume(-k1 * h2 * 27 <= 3.99)
    uv = S.array([[d[i, 0] * cam.f[0] + 3.5 + cam.c[0], d[i, 1] * cam.f[1] + 2.5 + cam.c[1]]
                  for i in range(n)])
    xyz = cam.uv_to_xyz(uv)
    for i in range(n):
        x, y = xyz[i, 0], -xyz[i, 2]
        S.eq(xyz[i, 1], 1.0, "unit depth")
        r2 = x * x + y * y
        S.eq(x * (1 + k1 * r2), d[i, 0], "distorting the inverse returns x")
        S.eq(y * (1 + k1 * r2), d[i, 1], "distorting the inverse returns y")
        if S.config["sign"] < 0:
            S.check(-3 * k1 * r2 <= 1 + 1e-6, "the inverse is the solution nearest the axis")
    S.reach()


def principal_point(S):
    """The principal point is on the optical axis, whatever the lens."""
    on = S.config["on"]
    k = [S.real("k%d" % (i + 1), -2, 2) if on[i] else 0.0 for i in range(6)]
    p = [S.real("p%d" % (i + 1), -2, 2) if on[6 + i] else 0.0 for i in range(2)]
    cam = camera(S, angles=False, pos=False, k=k, p=p)
    uv = S.array([[3.5 + cam.c[0], 2.5 + cam.c[1]]])
    depth = S.real("z", 0.125, 8)
    xyz = cam.uv_to_xyz(uv, depth=depth)
    S.eq(xyz[0], S.array([0.0, depth, 0.0]), "principal point to optical axis")
    S.eq(cam.xyz_to_uv(S.array([[0.0, depth, 0.0]])), uv, "optical axis to principal point")
    S.reach()


def fixed(S):
    """Points that the lens leaves in place are where the image coordinates say."""
    on = S.config["on"]
    if S.config.get("at"):
        x, y = S.config["at"]
    else:
        a = S.angle("a")
        x, y = S.cos(a * (np.pi / 180)), S.sin(a * (np.pi / 180))
    k = [0.0] * 6
    p = [0.0, 0.0]
    # unit radius: radial terms add up to `total`, tangential terms take it back
    total = 3 if "p" in on else 0
    if total:
        p = [-y, -x]
    for i, j in ((0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5)):
        if "k%d" % (i + 1) in on and "k%d" % (j + 1) in on:
            v = S.real("k%d" % (j + 1), 2**-8, 2**-4) * S.config.get("sign", 1) if "p" not in on else S.config.get("sign", 1) * 2**-5
            k[j] = v
            k[i] = (total if i < 3 else 0) - v
    for i, j in itertools.product(range(3), range(3, 6)):
        # a numerator and denominator which are equal
        if on == ["k%d" % (i + 1), "k%d" % (j + 1)]:
            k[i] = k[j] = S.real("k", 2**-8, 2**-4) * S.config.get("sign", 1)
    if on == ["k1", "p"]:
        k[0] = 3.0
    c = S.reals("c", 2, -4, 4)
    f = S.config.get("f", (2.0, 4.0))
    cam = glimpse.Camera(imgsz=(7, 5), f=f, c=c, k=k, p=p)
    S.eq(list(brown(S, k, p, x, y)), [x, y], "left in place")
    uv = S.array([[x * f[0] + 3.5 + c[0], y * f[1] + 2.5 + c[1]]])
    keep = uv.copy()
    S.eq(cam.uv_to_xyz(uv)[0], [x, 1.0, -y], "direction of the point", tol=1e-6)
    S.eq(uv, keep, "input points unchanged")
    S.reach()


def reversible(S):
    """Reversible where distorted coordinates increase along the axes of the image."""
    on = S.config["on"]
    w, h = S.config.get("size", (4, 3))
    hi = S.config.get("hi", 2)
    k = [S.real("k%d" % (i + 1), 0 if i > 2 else -hi, hi) if on[i] else 0.0 for i in range(6)]
    p = [S.real("p%d" % (i + 1), -hi, hi) if on[6 + i] else 0.0 for i in range(2)]
    f = S.config.get("f", (2.0, 1.5))
    c = S.reals("c", 2, -9, 9)
    cam = glimpse.Camera(imgsz=(w, h), f=f, c=c, k=k, p=p, viewdir=(20, -30, 10), xyz=(1, 2, 3))
    steps = []
    for axis, n in enumerate((w, h)):
        half = n / (2 * f[axis])
        at = [-half + 2 * half * i / (n - 1) for i in range(n)]
        # distorted coordinates along the axis
        d = [brown(S, k, p, *((x, 0.0) if axis == 0 else (0.0, x)))[axis] for x in at]
        steps += [b - a for a, b in zip(d[:-1], d[1:])]
    S.assume(S.and_(*[S.abs(v) >= 2**-12 for v in steps]))
    before = cam.to_array()
    S.check(bool(cam.reversible()) == S.concrete(S.and_(*[v > 0 for v in steps])), "whether distorted coordinates increase")
    S.eq(cam.to_array(), before, "camera unchanged")
    S.reach()


def _on(*names):
    alln = ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2")
    return [n in names for n in alln]


HARNESSES = [
    H("forward", forward, [
        dict(on=_on("k1", "k2", "k3")), dict(on=_on("k4", "k5", "k6")),
        dict(on=_on("p1", "p2")), dict(on=_on("k1", "k4", "p1", "p2")),
        dict(on=_on("k2", "k5", "p1")), dict(on=_on("k3", "k6", "p2")),
        dict(on=_on("k1"), n=2), dict(on=_on("k2"), n=2), dict(on=_on("p1"), n=2), dict(on=_on("k4", "p2"), n=2),
        dict(on=_on()),
    ], thorough=[dict(on=_on("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"))],
        bounds="1-2 points, |x|,|y|<=2, coefficients in [-2,2]"),
    H("k1_inverse", k1_inverse, [
        dict(sign=s, n=n) for s in (1, -1) for n in (1,)
    ] + [dict(sign=s, axis=a) for s in (1, -1) for a in "xy"] + [], thorough=[dict(sign=1, n=2)],
        bounds="1/64<=|k1|<=2, distorted |x|,|y|<=2; k1<0 within the invertible radius"),
    H("principal_point", principal_point, [
        dict(on=_on("k1", "k2", "k3")), dict(on=_on("k4", "k5", "k6")), dict(on=_on("k1", "k4", "p1")),
        dict(on=_on("k2", "p1", "p2")), dict(on=_on("k1")), dict(on=_on("k6", "p2"))],
      thorough=[dict(on=_on("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"))],
      bounds="up to 3 (thorough: all 8) coefficients in [-2,2]"),
    H("fixed", fixed, [dict(on=["k1", "k2"]), dict(on=["k2", "k3"]), dict(on=["k4", "k5"], sign=-1), dict(on=["k5", "k6"]), dict(on=["k1", "k3", "k4", "k6"]), dict(on=["k1", "k2", "p"], sign=-1),
                       dict(on=["k1", "p"], at=(1.0, 0.0)), dict(on=["k1", "p"], at=(0.0, -1.0)), dict(on=["k1", "p"]), dict(on=["k2", "k3", "k4", "k5", "p"])] + [dict(on=["k%d" % i, "k%d" % j], sign=-1 if i + j == 6 else 1) for i, j in ((1, 4), (1, 5), (1, 6), (2, 4), (3, 6))],
      bounds="any point of the unit circle, 2-6 coefficients that leave it in place"),
    H("reversible", reversible, [dict(on=_on()), dict(on=_on("k1")), dict(on=_on("k2"), size=(3, 4)), dict(on=_on("k4")), dict(on=_on("p1")), dict(on=_on("p2"), size=(3, 4)), dict(on=_on("k1", "k3"), f=(4.0, 3.0)), dict(on=_on("k1", "p2")), dict(on=_on("k2", "p1"), f=(1.5, 3.0)), dict(on=_on("k5", "p1"))],
      thorough=[dict(on=_on("k1", "k2", "k3", "p1", "p2"), size=(6, 5))],
      bounds="images of 3-4 x 3-4 pixels, 1-2 (thorough: 5) coefficients in [-2,2]"),
]
