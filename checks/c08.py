"""C08: rigid-motion algebra."""
import numpy as np
import torch

from vlib import gen
from vlib.core import Check, Family

DT = {torch.float32: 3e-4, torch.float64: 1e-7}


def se3_exp_oracle(xi):
    """high-accuracy exponential by scaling and squaring with a Taylor series, float64"""
    A = np.zeros((4, 4))
    A[:3, :3] = gen.hat(xi[3:])
    A[:3, 3] = xi[:3]
    n = max(0, int(np.ceil(np.log2(max(np.abs(A).max(), 1e-9) * 8))))
    X = A / 2 ** n
    E = np.eye(4)
    term = np.eye(4)
    for k in range(1, 20):
        term = term @ X / k
        E = E + term
    for _ in range(n):
        E = E @ E
    return E


def exponential(ctx):
    from gradslam.geometry import se3utils as SE
    rng = ctx.rng
    dt = gen.dt(rng, .6)
    # magnitudes over many orders, the thresholds, half turns and beyond
    kind = rng.choice(["zero", "tiny", "threshold", "small", "normal", "half-turn", "big", "axis"])
    ax = rng.normal(size=3); ax /= np.linalg.norm(ax)
    if kind == "axis":
        ax = np.eye(3)[int(rng.integers(0, 3))] * rng.choice([-1, 1])
    mag = {"zero": 0.0, "tiny": 10 ** rng.uniform(-12, -6.3), "threshold": 1e-6 * rng.uniform(.5, 2), "small": 10 ** rng.uniform(-6, -1),
           "normal": rng.uniform(.1, 3), "half-turn": np.pi + rng.uniform(-1e-3, 1e-3), "big": rng.uniform(3.2, 20), "axis": rng.uniform(0, 7)}[kind]
    v = rng.normal(size=3) * (0 if rng.random() < .1 else 10 ** rng.uniform(-3, 1))
    xi = torch.tensor(np.concatenate([v, ax * mag]), dtype=dt)
    x = xi.double().numpy()
    E = SE.se3_exp(xi)
    want = se3_exp_oracle(x)
    # cancellation in (1-cos)/theta^2 and (theta-sin)/theta^3 near the 1e-6 threshold is part of the closed form
    tol = DT[dt] if dt == torch.float64 else 3e-4
    f = max(1, np.linalg.norm(x[:3]))
    # a small angle loses half the digits in (1-cos): relative error of V bounded by eps*|w|/theta^2 ~ min(1, ...)*|w|
    th = np.linalg.norm(x[3:])
    eps = 6e-8 if dt == torch.float32 else 1.2e-16
    cancel = min(.5 * th, 4 * eps / max(th, 1e-300)) if th > 0 else 0
    ctx.close("exp-is-matrix-exponential", E, want, 0, tol * f + cancel * f * 2, "twist %s (%s)" % (x, kind))
    R = E[:3, :3].double().numpy()
    ctx.close("exp-rotation-proper", R @ R.T, np.eye(3), 0, 2e-4 if dt == torch.float32 else 1e-6, "%s" % kind)
    ctx.close("exp-rotation-proper", np.linalg.det(R), 1.0, 0, 2e-4 if dt == torch.float32 else 1e-6)
    ctx.close("exp-last-row", E[3], np.array([0, 0, 0, 1.0]), 0, 0)
    ctx.close("exp-so3", SE.so3_exp(xi[3:]), R, 0, 1e-6 if dt == torch.float32 else 1e-12)
    ctx.close("hat", SE.so3_hat(xi[3:]), gen.hat(x[3:]), 0, 0)
    H = np.zeros((4, 4)); H[:3, :3] = gen.hat(x[3:]); H[:3, 3] = x[:3]
    ctx.close("hat", SE.se3_hat(xi), H, 0, 0)
    # one-parameter subgroup: exp(a xi) exp(b xi) = exp((a+b) xi), exp(-xi) = exp(xi)^-1
    if dt == torch.float64 and th > 1e-4:
        a, b = rng.uniform(-1, 1, 2)
        ctx.close("exp-group-law", SE.se3_exp(xi * a) @ SE.se3_exp(xi * b), SE.se3_exp(xi * (a + b)), 0, 1e-5 * f)
        ctx.close("exp-group-law", SE.se3_exp(-xi) @ E, np.eye(4), 0, 1e-6 * f)
    ctx.set(xi=x, kind=kind, dtype=str(dt))
    ctx.state(kind, str(dt), int(np.floor(np.log10(mag + 1e-15))))


def algebra(ctx):
    from gradslam.geometry import geometryutils as GU
    rng = ctx.rng
    dt = gen.dt(rng)
    tol = DT[dt]
    shape = () if rng.random() < .35 else (int(rng.integers(1, 6)),)
    A, B, C = (gen.rigids(rng, shape, max_t=2) for _ in range(3))
    a, b, c = (torch.tensor(X, dtype=dt) for X in (A, B, C))
    A, B, C = (t.double().numpy() for t in (a, b, c))
    inv = np.linalg.inv
    eye = np.broadcast_to(np.eye(4), A.shape)
    for name, f in (("inverse_transfom_3d", GU.inverse_transfom_3d), ("inverse_transformation", GU.inverse_transformation)):
        ctx.close("inverse", f(a), inv(A), 0, tol * 10, "%s %s" % (name, shape))
        ctx.close("inverse", f(f(a)), A, 0, tol * 10, "%s twice" % name)
        ctx.close("inverse", f(a) @ a, eye, 0, tol * 10)
    for name, f in (("compose_transforms_3d", GU.compose_transforms_3d), ("compose_transformations", GU.compose_transformations)):
        ctx.close("composition", f(a, b), A @ B, 0, tol * 10, "%s %s" % (name, shape))
        ctx.close("composition", f(f(a, b), c), f(a, f(b, c)), 0, tol * 20, name + " associativity")
    ctx.close("relative", GU.relative_transform_3d(a, b), inv(A) @ B, 0, tol * 20, "relative_transform_3d %s" % (shape,))
    for orth in (False, True):
        ctx.close("relative", GU.relative_transformation(a, b, orthogonal_rotations=orth), inv(A) @ B, 0, tol * 20, "relative_transformation %s" % orth)
    ctx.close("relative", GU.compose_transforms_3d(a, GU.relative_transform_3d(a, b)), B, 0, tol * 20, "a * relative(a, b) = b")
    # a general (not orthogonal) first matrix is inverted as a matrix
    S = A.copy(); S[..., :3, :3] = S[..., :3, :3] * rng.uniform(.5, 2)
    s = torch.tensor(S, dtype=dt)
    ctx.close("relative", GU.relative_transformation(s, b), inv(s.double().numpy()) @ B, 0, tol * 40, "similarity")
    # wrong shapes are refused
    bad = [torch.eye(3, dtype=dt), torch.zeros(2, 3, 3, dtype=dt), torch.zeros(2, 2, 4, 4, dtype=dt), torch.zeros(4, dtype=dt)][int(rng.integers(0, 4))]
    ctx.raises("bad-shape-rejected", (ValueError, TypeError, AssertionError), lambda: GU.inverse_transfom_3d(bad), "inverse_transfom_3d%s" % (tuple(bad.shape),))
    ctx.raises("bad-shape-rejected", (ValueError, TypeError, AssertionError), lambda: GU.compose_transforms_3d(bad, bad), "compose_transforms_3d%s" % (tuple(bad.shape),))
    ctx.raises("bad-shape-rejected", (ValueError, TypeError, AssertionError), lambda: GU.relative_transformation(bad, bad), "relative_transformation%s" % (tuple(bad.shape),))
    ctx.set(shape=shape, dtype=str(dt))
    ctx.state(shape, str(dt), tuple(bad.shape))


def quat_oracle(q):
    x, y, z, w = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def quaternions(ctx):
    from gradslam.geometry import geometryutils as GU
    rng = ctx.rng
    dt = gen.dt(rng)
    tol = DT[dt]
    lead = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, 4))))
    q = rng.normal(size=lead + (4,)) * 10 ** rng.uniform(-5, 5)
    if rng.random() < .3:
        q = np.zeros(lead + (4,)); q[..., int(rng.integers(0, 4))] = rng.choice([-1, 1])
    if rng.random() < .2:
        q[..., 3] = 0
        if (np.abs(q).sum(-1) == 0).any():
            q[..., 0] = 1
    t = torch.tensor(q, dtype=dt)
    q = t.double().numpy()
    R = GU.quaternion_to_rotation_matrix(t)
    if ctx.ok("quaternion-shape", tuple(R.shape) == lead + (3, 3), "input %s gives %s" % (tuple(t.shape), tuple(R.shape))):
        want = np.zeros(lead + (3, 3))
        for ix in np.ndindex(*lead):
            want[ix] = quat_oracle(q[ix])
        ctx.close("quaternion-matrix", R, want, 0, tol)
        Rn = R.double().numpy()
        ctx.close("quaternion-proper", Rn @ np.swapaxes(Rn, -1, -2), np.broadcast_to(np.eye(3), Rn.shape), 0, tol)
        ctx.close("quaternion-proper", np.linalg.det(Rn), np.ones(lead), 0, tol)
        ctx.close("quaternion-sign", GU.quaternion_to_rotation_matrix(-t), R, 0, 1e-6 if dt == torch.float32 else 1e-12)
        ctx.close("quaternion-scale", GU.quaternion_to_rotation_matrix(t * 3.7), R, 0, tol)
        # rotation axis-angle of a unit quaternion exponentiates to the same matrix
        u = t / t.norm(dim=-1, keepdim=True)
        aa = GU.quaternion_to_axisangle(u).double().numpy()
        ctx.ok("axisangle-shape", aa.shape == lead + (3,), "%s" % (aa.shape,))
        for ix in np.ndindex(*lead):
            ctx.close("axisangle", gen.rodrigues(aa[ix]), want[ix], 0, tol * 10)
        n = GU.normalize_quaternion(t)
        ctx.close("quaternion-normalised", n, q / np.linalg.norm(q, axis=-1, keepdims=True), 0, tol)
    ctx.set(lead=lead, dtype=str(dt))
    ctx.state(lead, str(dt), bool((np.abs(q[..., 3]) == 0).any()))


def application(ctx):
    from gradslam.geometry import geometryutils as GU
    rng = ctx.rng
    dt = gen.dt(rng)
    tol = DT[dt]
    M = gen.rigid(rng, max_t=2)
    t = torch.tensor(M, dtype=dt)
    M = t.double().numpy()
    n = int(rng.choice([0, 1, 2, 3, 4, 7]))
    p = torch.tensor(rng.uniform(-3, 3, (n, 3)), dtype=dt)
    P = p.double().numpy()
    ctx.close("points-transformed", GU.transform_pointcloud(p, t), P @ M[:3, :3].T + M[:3, 3], 0, tol * 10)
    ctx.close("normals-rotated", GU.transform_normals(p, t), P @ M[:3, :3].T, 0, tol * 10)
    lead = tuple(int(v) for v in rng.integers(1, 5, int(rng.choice([1, 2, 3]))))
    q = torch.tensor(rng.uniform(-3, 3, lead + (3,)), dtype=dt)
    Q = q.double().numpy()
    hom = rng.random() < .4
    out = GU.transform_pts_3d(GU.homogenize_points(q) if hom else q, t)
    ctx.close("points-transformed", out, Q @ M[:3, :3].T + M[:3, 3], 0, tol * 10, "transform_pts_3d %s hom=%s" % (lead, hom))
    B, N, D = int(rng.integers(1, 4)), int(rng.integers(1, 6)), int(rng.integers(2, 4))
    Ms = gen.rigids(rng, (B,))
    if D == 2:
        Ms = Ms[:, [0, 1, 3]][:, :, [0, 1, 3]]
    Mt = torch.tensor(Ms, dtype=dt); Mn = Mt.double().numpy()
    x = torch.tensor(rng.uniform(-3, 3, (B, N, D)), dtype=dt); X = x.double().numpy()
    ctx.close("points-transformed", GU.transform_pts_nd_KF(x, Mt), np.einsum("bij,bnj->bni", Mn[:, :D, :D], X) + Mn[:, None, :D, D], 0, tol * 10, "transform_pts_nd_KF")
    ctx.set(n=n, lead=lead, dtype=str(dt), hom=hom)
    ctx.state(n, lead, D, B, hom, str(dt))


def groundtruth(ctx):
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    rng = ctx.rng
    dt = gen.dt(rng)
    B = int(rng.integers(1, 5))
    h, w = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    a = gen.rgbd(rng, B=B, L=1, h=h, w=w, poses=True, dtype=dt, max_t=3)
    b = gen.rgbd(rng, B=B, L=1, h=h, w=w, poses=True, dtype=dt, max_t=3)
    o1, o2 = a.build(bool(rng.random() < .5)), b.build(bool(rng.random() < .5))
    T = GroundTruthOdometryProvider().provide(o1, o2)
    ctx.close("groundtruth-relative", T, np.linalg.inv(a.poses) @ b.poses, 0, DT[dt] * 20, "B=%d" % B)
    ctx.close("groundtruth-relative", torch.tensor(a.poses) @ T.double(), b.poses, 0, DT[dt] * 40, "first pose composed with the estimate is the second pose")
    ctx.eq("groundtruth-poses-unchanged", o1.poses, a.poses)
    ctx.eq("groundtruth-poses-unchanged", o2.poses, b.poses)
    c = gen.rgbd(rng, B=B, L=1, h=h, w=w, poses=False, dtype=dt); c.poses = None
    ctx.raises("missing-poses-rejected", (ValueError,), lambda: GroundTruthOdometryProvider().provide(o1, c.build()), "second frame without poses")
    ctx.raises("missing-poses-rejected", (ValueError,), lambda: GroundTruthOdometryProvider().provide(c.build(), o1), "first frame without poses")
    ctx.set(B=B, dtype=str(dt))
    ctx.state(B, str(dt), o1.channels_first, o2.channels_first)


def scales(ctx):
    """the algebra far from unit scale: translations of a hair's breadth or of kilometres, exact quarter and half turns,
    equal motions, large batches and clouds; errors measured relative to the terms that make a value up"""
    from gradslam.geometry import geometryutils as GU
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    from gradslam.structures.rgbdimages import RGBDImages
    rng = ctx.rng
    dt = gen.dt(rng)
    e = 4e-6 if dt == torch.float32 else 1e-12
    k = rng.random()
    shape = () if k < .2 else (int(rng.integers(1, 6)) if k < .85 else gen.loguniform(rng, 6, 300),)

    def motion():
        M = gen.rigids(rng, shape, max_t=1.0)
        M[..., :3, 3] *= 10 ** rng.uniform(-4, 6)
        if rng.random() < .5:
            M = gen.unusual_poses(rng, M)
        t = torch.tensor(M, dtype=dt)
        return t, t.double().numpy()

    def near(mon, got, want, size, msg):
        got = got.detach().double().numpy()
        bad = ~(np.abs(got - want) <= e * size + 1e-30) if got.shape == want.shape else np.ones(want.shape, bool)
        ctx.ok(mon, got.shape == want.shape and not bad.any(), lambda: "%s %s: %d entries off, got %s expected %s" % (
            msg, shape, bad.sum(), got[bad][:3] if got.shape == want.shape else got.shape, want[bad][:3]))

    def size_of(*Ms):
        """4x4 table of error scales: one for rotations, the translations' magnitude for the last column"""
        s = np.ones(shape + (4, 4))
        s[..., :3, 3] = sum(np.abs(M[..., :3, 3]).sum(-1) for M in Ms)[..., None]
        return s

    (a, A), (b, B) = motion(), motion()
    if rng.random() < .2:
        b, B = a.clone(), A
    inv = np.linalg.inv
    for f in (GU.inverse_transfom_3d, GU.inverse_transformation):
        near("scale/inverse", f(a), inv(A), size_of(A), f.__name__)
    for f in (GU.compose_transforms_3d, GU.compose_transformations):
        near("scale/composition", f(a, b), A @ B, size_of(A, B), f.__name__)
    rel = inv(A) @ B
    near("scale/relative", GU.relative_transform_3d(a, b), rel, size_of(A, B), "relative_transform_3d")
    # inverted as a general matrix, whose condition grows with the translation
    general = size_of(A, B) * (1 + np.abs(A[..., :3, 3]).max(-1))[..., None, None] * 3
    near("scale/relative", GU.relative_transformation(a, b), rel, general, "relative_transformation")
    near("scale/relative", GU.relative_transformation(a, b, True), rel, size_of(A, B), "relative_transformation, orthogonal")
    if shape and shape[0] <= 40:
        n, im = shape[0], torch.zeros(shape[0], 1, 1, 1, 3, dtype=dt)
        fr = [RGBDImages(im, im[..., :1], torch.eye(4, dtype=dt).repeat(n, 1, 1, 1), m.unsqueeze(1)) for m in (a, b)]
        near("scale/relative", GroundTruthOdometryProvider().provide(*fr)[:, 0], rel, general, "ground-truth odometry")
    # application
    m, M = (a[0], A[0]) if shape else (a, A)
    n = int(rng.integers(0, 8)) if rng.random() < .9 else gen.loguniform(rng, 10, 5000)
    p = torch.tensor(rng.normal(size=(n, 3)) * 10 ** rng.uniform(-4, 4), dtype=dt)
    P = p.double().numpy()
    want, size = P @ M[:3, :3].T + M[:3, 3], np.broadcast_to(np.abs(P).sum(-1, keepdims=True) + np.abs(M[:3, 3]), (n, 3))
    near("scale/points", GU.transform_pointcloud(p, m), want, size, "transform_pointcloud of %d points" % n)
    near("scale/points", GU.transform_normals(p, m), P @ M[:3, :3].T, np.broadcast_to(np.abs(P).sum(-1, keepdims=True), (n, 3)), "transform_normals of %d" % n)
    if n:
        near("scale/points", GU.transform_pts_3d(p, m), want, size, "transform_pts_3d of %d" % n)
        near("scale/points", GU.transform_pts_3d(GU.homogenize_points(p)[None], m)[0], want, size, "transform_pts_3d of %d homogeneous points" % n)
        if shape:
            near("scale/points", GU.transform_pts_nd_KF(p.expand(shape[0], n, 3) if shape[0] * n < 1e5 else p[None], a if shape[0] * n < 1e5 else a[:1])[0], want, size, "transform_pts_nd_KF of %d" % n)
    ctx.set(shape=shape, n=n, dtype=str(dt))
    ctx.state(shape, str(dt), int(np.log10(1e-9 + np.abs(A[..., :3, 3]).max())), int(np.log10(1e-9 + np.abs(B[..., :3, 3]).max())), n if n < 8 else int(np.log2(n)))


CHECK = Check("C08", [
    Family("scales", scales, 250, 5000),
    Family("exponential", exponential, 600, 12000),
    Family("algebra", algebra, 200, 4000),
    Family("quaternions", quaternions, 250, 4000),
    Family("application", application, 250, 4000),
    Family("groundtruth", groundtruth, 120, 2000),
], require=["exp-is-matrix-exponential", "exp-rotation-proper", "exp-group-law", "inverse", "composition", "relative", "quaternion-matrix", "quaternion-sign",
            "points-transformed", "normals-rotated", "groundtruth-relative", "scale/inverse", "scale/composition", "scale/relative", "scale/points"],
    rule="case = random twist/motions/quaternions/points; distinct = (magnitude decade or shape, dtype, kind)",
    assumptions=["closed-form cancellation error of the exponential for angles near 1e-6 is tolerated in proportion to machine epsilon / angle"])
