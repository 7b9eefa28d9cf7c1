"""Projection and inverse projection (no lens distortion)."""
import numpy as np

from symx.runner import H

import glimpse

from props.common import camera, rotation

ASSUMPTIONS = [
    "angles are points of the unit circle: every viewing direction is covered, "
    "floating-point trigonometry is not modelled",
]


def inverse(S):
    """uv -> ray at depth -> uv, and the depth along the optical axis."""
    cam = camera(S)
    S.patch(glimpse.config, "matmul", S.config.get("matmul", True))
    n = S.config.get("n", 1)
    uv = S.reals("uv", (n, 2), -20, 20)
    dmode = S.config["depth"]
    if dmode == "scalar":
        depth = S.real("d", 0.125, 1000)
        want = [depth] * n
    elif dmode == "vector":
        depth = S.reals("d", n, 0.125, 1000)
        want = list(depth)
    else:
        depth = 1
        want = [1.0] * n
    directions = S.config["directions"]
    keep = uv.copy()
    before = cam.to_array()
    xyz = cam.uv_to_xyz(uv, directions=directions, depth=depth)
    S.eq(uv, keep, "input image coordinates unchanged")
    uv2, z = cam.xyz_to_uv(xyz, directions=directions, return_depth=True)
    S.eq(uv2, keep, "project(unproject(uv)) == uv")
    S.eq(z, S.array(want), "depth along the optical axis")
    S.check(cam.infront(xyz, directions=directions), "unprojected points are in front")
    S.eq(cam.to_array(), before, "camera unchanged")
    S.reach()


def points(S, cam, q, corr=None, directions=False):
    """World points with camera coordinates q (right, down, depth): any point is one."""
    R = rotation(S, cam.viewdir)
    rows = []
    for i in range(len(q)):
        d = [sum(q[i, j] * R[j][k] for j in range(3)) for k in range(3)]
        if not directions:
            if corr is not None:
                rad, refr = corr
                d[2] = d[2] + (1 - refr) * (d[0] * d[0] + d[1] * d[1]) / (2 * rad)
            d = [d[k] + cam.xyz[k] for k in range(3)]
        rows.append(d)
    return S.array(rows)


def away_from_plane(S, q):
    """Depths of floating-point points in the plane of the camera are not decided."""
    for i in range(len(q)):
        S.assume(S.or_(q[i, 2] >= 2**-6, q[i, 2] <= -(2**-6)))


def projection(S):
    """Image coordinates of world points are those of the pinhole model."""
    n = S.config.get("n", 1)
    corr = S.config.get("correction")
    kw, rr = {}, None
    if corr == "default":
        kw["correction"], rr = True, (6.3781e6, 0.13)
    elif corr == "custom":
        rr = S.real("radius", 100, 10000), S.real("refr", 0, 0.5)
        kw["correction"] = {"radius": rr[0], "refraction": rr[1]}
    elif corr == "partial":
        rr = 6.3781e6, S.real("refr", 0, 0.5)
        kw["correction"] = {"refraction": rr[1]}
    cam = camera(S, **kw)
    S.patch(glimpse.config, "matmul", S.config.get("matmul", True))
    directions = S.config["directions"]
    q = S.reals("q", (n, 3), -100, 100)
    away_from_plane(S, q)
    P = points(S, cam, q, rr, directions)
    keep = P.copy()
    uv, depth = cam.xyz_to_uv(P, directions=directions, return_depth=True)
    S.eq(P, keep, "input points unchanged")
    S.eq(depth, q[:, 2], "depth is the distance along the optical axis")
    if not corr:
        S.eq(cam.infront(P, directions=directions), q[:, 2] > 0, "infront is a positive depth")
    for i in range(n):
        if q[i, 2] > 0:
            S.eq(uv[i, 0], cam.f[0] * q[i, 0] / q[i, 2] + 3.5 + cam.c[0], "u of the pinhole model")
            S.eq(uv[i, 1], cam.f[1] * q[i, 1] / q[i, 2] + 2.5 + cam.c[1], "v of the pinhole model")
        else:
            S.check(S.and_(S.isnan(uv[i, 0]), S.isnan(uv[i, 1])), "points behind the camera are NaN")
    S.eq(cam.xyz_to_uv(P, directions=directions), uv, "same coordinates with and without depths")
    S.reach()


def posed(S):
    """Projection and its inverse for a camera at a given pose, by either kind of product."""
    S.patch(glimpse.config, "matmul", S.config["matmul"])
    n = S.config["n"]
    pose = S.config["viewdir"]
    R = rotation(S, np.array(pose))
    far = S.config.get("far", (0, 0, 0))
    o = [S.real("o%d" % i, -50, 50) + far[i] for i in range(3)]
    tol = 1e-6 if any(far) else 1e-9
    cam = glimpse.Camera(imgsz=(8, 6), f=(2.0, 3.0), c=(0.5, -0.25), viewdir=pose, xyz=S.array(o))
    depth = [S.concrete(S.choice("depth%d" % i, [0.5, 4.0, -4.0])) for i in range(n)]
    side, down = S.reals("side", n, -10, 10), S.reals("down", n, -10, 10)
    d = [[sum(q * R[j][k] for j, q in enumerate((side[i], down[i], depth[i]))) for k in range(3)] for i in range(n)]
    P = S.array([[a + b for a, b in zip(x, o)] for x in d])
    uv, z = cam.xyz_to_uv(P, return_depth=True)
    for i in range(n):
        S.eq(z[i], depth[i], "depth along the axis", tol=tol)
        if depth[i] < 0:
            S.check(S.and_(S.isnan(uv[i, 0]), S.isnan(uv[i, 1])), "points behind are NaN")
        else:
            S.eq(uv[i], S.array([4.5 + 2 / depth[i] * side[i], 2.75 + 3 / depth[i] * down[i]]), "where it is seen", tol=tol)
    pts = S.array([[4.5 + side[i], 2.75 + down[i]] for i in range(n)])
    zs = S.array([abs(v) for v in depth])
    rays = cam.uv_to_xyz(pts, depth=zs)
    ahead = cam.uv_to_xyz(pts, depth=zs, directions=False)
    for i in range(n):
        m = abs(depth[i])
        want = [m * (side[i] / 2 * R[0][k] + down[i] / 3 * R[1][k] + R[2][k]) for k in range(3)]
        S.eq(rays[i], S.array(want), "the ray at the depth", tol=tol)
        S.eq(ahead[i], S.array([a + b for a, b in zip(want, o)]), "the point at the depth", tol=tol)
    S.reach()


def corrected(S):
    """Points appear lower by their horizontal distance, squared."""
    yaw = S.config.get("yaw", 0)
    kw = {"default": True, "custom": dict(radius=200.0, refraction=0.25), "refraction": dict(refraction=0.5)}[S.config["kind"]]
    r, k = {"default": (6.3781e6, 0.13), "custom": (200.0, 0.25), "refraction": (6.3781e6, 0.5)}[S.config["kind"]]
    reach = 8 if r < 1000 else 40000
    import glimpse

    cam = glimpse.Camera(imgsz=(8, 6), f=(2.0, 3.0), viewdir=(yaw, 0, 0), xyz=(1.0, -2.0, 3.0), correction=kw)
    # offsets to the right of, along and above the optical axis
    depth = S.concrete(S.choice("depth", [reach / 4.0, -1.0, float(reach)]))
    side, up = S.real("side", -reach, reach), S.real("up", -reach, reach)
    d = {0: (side, depth, up), 90: (depth, -side, up)}[yaw]
    P = S.array([[a + b for a, b in zip(d, (1.0, -2.0, 3.0))]])
    keep = P.copy()
    uv, z = cam.xyz_to_uv(P, return_depth=True)
    S.eq(P, keep, "input points unchanged")
    S.eq(z[0], depth, "depth", tol=1e-6)
    if depth < 0:
        S.check(S.and_(S.isnan(uv[0, 0]), S.isnan(uv[0, 1])), "points behind the camera are NaN")
    else:
        low = (1 - k) / (2 * r) * (side * side + depth * depth)
        S.eq(uv[0], S.array([4 + 2 / depth * side, 3 - 3 / depth * (up - low)]), "image coordinates of the corrected point", tol=1e-6)
        plain = glimpse.Camera(imgsz=(8, 6), f=(2.0, 3.0), viewdir=(yaw, 0, 0), xyz=(1.0, -2.0, 3.0))
        S.eq(cam.xyz_to_uv(S.array([list(d)]), directions=True), plain.xyz_to_uv(P), "rays are not corrected", tol=1e-6)
    S.reach()


def plane(S):
    """Points in the plane of the camera, with an unrotated camera (exact arithmetic)."""
    cam = camera(S, angles=False)
    P = S.reals("P", (1, 3), -100, 100)
    P[0, 1] = cam.xyz[1]
    uv, depth = cam.xyz_to_uv(P, return_depth=True)
    S.check(S.and_(S.isnan(uv[0, 0]), S.isnan(uv[0, 1])), "points in the camera plane are NaN")
    S.eq(depth[0], 0.0, "depth in the camera plane is zero")
    S.check(S.not_(cam.infront(P)[0]), "points in the camera plane are not in front")
    S.reach()


def rotation_matrix(S):
    """R is orthonormal, and its rows are the camera axes for the yaw, pitch and roll."""
    cam = camera(S, pos=False, f=1, c=0)
    R = cam.R
    want = rotation(S, cam.viewdir)
    for i in range(3):
        for j in range(3):
            S.eq(R[i, j], want[i][j], "rotation of yaw, pitch, roll")
    for i in range(3):
        for j in range(i, 3):
            S.eq(sum(R[i, k] * R[j, k] for k in range(3)), 1.0 if i == j else 0.0, "orthonormal")
    S.eq(R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1]) - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0])
         + R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0]), 1.0, "proper rotation")
    S.reach()


def derivative(S):
    """Rprime[j, k, i] is the derivative of R[i, j] by angle k, per degree."""
    cam = camera(S, pos=False, f=1, c=0)
    rad = cam.viewdir * (np.pi / 180)
    c, s = [S.cos(a) for a in rad], [S.sin(a) for a in rad]

    def R(c, s):
        (cy, cp, cr), (sy, sp, sr) = c, s
        axis = (cp * sy, cp * cy, sp)
        right, up2 = (cy, -sy, 0), (-sp * sy, -sp * cy, cp)
        x = [cr * a - sr * b for a, b in zip(right, up2)]
        y = [-(cr * b + sr * a) for a, b in zip(right, up2)]
        return [x, y, axis]

    D = cam.Rprime
    zero = [R([0 if i == k else c[i] for i in range(3)], [0 if i == k else s[i] for i in range(3)]) for k in range(3)]
    for k in range(3):
        # R is affine in (cos, sin) of each angle, so its derivative is R with
        # (cos, sin) -> (-sin, cos), less the part that does not depend on the angle
        dc = [-s[i] if i == k else c[i] for i in range(3)]
        ds = [c[i] if i == k else s[i] for i in range(3)]
        A = R(dc, ds)
        for i in range(3):
            for j in range(3):
                want = (A[i][j] - zero[k][i][j]) * (np.pi / 180)
                S.eq(D[j, k, i], want, "derivative of the rotation", tol=1e-9)
    S.reach()


HARNESSES = [
    H("inverse", inverse, [
        dict(depth=d, directions=b, n=n)
        for d in ("one", "scalar", "vector") for b in (True, False) for n in (1, 2)
    ] + [dict(depth="vector", directions=False, n=2, matmul=False)], bounds="n<=2 points, |uv|<=20, depth in [1/8,1000]"),
    H("projection", projection, [
        dict(directions=b, n=n, correction=c)
        for b in (True, False) for n in (1, 2) for c in (None,)
    ] + [dict(directions=b, n=1, correction=c) for c in ("default", "custom", "partial") for b in (False, True)]
        + [dict(directions=False, n=2, correction=None, matmul=False)],
        bounds="n<=2 points with camera coordinates in [-100,100]^3 (|depth|>=1/64), any camera position in [-50,50]^3 and rotation"),
    H("posed", posed, [dict(viewdir=v, matmul=m, n=2) for v in ([30.0, 20.0, 10.0], [200.0, -35.0, 100.0]) for m in (True, False)] + [dict(viewdir=[30.0, 20.0, 10.0], matmul=True, n=1, far=(431250.01, 7100000.01, 512.01))], bounds="2 given poses at any position, 2 points anywhere at 3 depths"),
    H("plane", plane, bounds="unrotated camera, one point"),
    H("rotation", rotation_matrix, bounds="every viewing direction"),
    H("derivative", derivative, bounds="every viewing direction"),
    H("corrected", corrected, [dict(kind=k, yaw=y) for k in ("default", "custom", "refraction") for y in (0, 90)], bounds="1 point anywhere to 40 km (or 8 m on a small globe), 2 view directions, 3 depths"),
]
