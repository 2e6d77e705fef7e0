"""C07: projective conversions are mutually inverse and agree with the camera model."""
import numpy as np
import torch

from vlib import gen
from vlib.core import Check, Family

DT = {torch.float32: (2e-4, 2e-4), torch.float64: (1e-8, 1e-8)}


def _lead(rng, lo=1, hi=4):
    return tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(lo, hi))))


def homogeneous(ctx):
    """both copies of homogenize / unhomogenize (projutils and geometryutils)"""
    from gradslam.geometry import geometryutils as GU, projutils as PU
    rng = ctx.rng
    dt = gen.dt(rng)
    rt, at = DT[dt]
    shape = _lead(rng) + (int(rng.integers(1, 6)),)
    p = torch.tensor(rng.uniform(-5, 5, shape), dtype=dt)
    if rng.random() < .3:
        p = p.transpose(0, -2).contiguous().transpose(0, -2) if p.ndim > 2 else p
    for M in (PU, GU):
        h = M.homogenize_points(p)
        ctx.ok("homogenize", h.shape == (*shape[:-1], shape[-1] + 1) and torch.equal(h[..., :-1], p) and bool((h[..., -1] == 1).all()) and h.dtype == dt, "homogenize_points %s" % (shape,))
        ctx.close("round-trip-homogeneous", M.unhomogenize_points(h), p, 0, 0)
        w = rng.uniform(.2, 4, shape[:-1] + (1,)) * np.where(rng.random(shape[:-1] + (1,)) < .4, -1, 1)
        wt = torch.tensor(w, dtype=dt)
        ctx.close("round-trip-homogeneous", M.unhomogenize_points(h * wt), p, rt, at * 5, "scaled homogeneous coordinates, w negative allowed")
        # mixture of finite points and points at infinity: finite result, scale one
        z = h * wt
        mask = rng.random(shape[:-1]) < .4
        z[torch.tensor(mask)] = torch.cat([z[torch.tensor(mask)][..., :-1], torch.zeros(int(mask.sum()), 1, dtype=dt)], -1)
        u = M.unhomogenize_points(z)
        ctx.ok("zero-scale-finite", bool(torch.isfinite(u).all()), "points at infinity give non-finite results")
        ctx.close("zero-scale-finite", u[torch.tensor(mask)], z[torch.tensor(mask)][..., :-1], 0, 0, "points at infinity keep their direction")
        ctx.close("round-trip-homogeneous", u[torch.tensor(~mask)], p[torch.tensor(~mask)], rt, at * 5, "finite points next to points at infinity")
    ctx.set(shape=shape, dtype=str(dt))
    ctx.state(shape, str(dt))


def _cases(rng):
    """leading shape + matching matrix batch: returns (lead, matrix_lead, elementwise matrix lookup)"""
    nd = int(rng.integers(1, 4))
    lead = [int(v) for v in rng.integers(1, 5, nd)]
    if rng.random() < .03:
        lead[int(rng.integers(0, nd))] = gen.loguniform(rng, 6, 1500 if nd < 3 else 200)
    lead = tuple(lead)
    if nd == 1 or rng.random() < .4:
        return lead, (), lambda A, ix: A
    ml = list(lead[:-1])
    for i in range(1, len(ml)):
        if rng.random() < .5:
            ml[i] = 1
    ml = tuple(ml)
    return lead, ml, lambda A, ix: A[tuple(0 if ml[i] == 1 and i > 0 else ix[i] for i in range(len(ml)))]


def projection(ctx):
    from gradslam.geometry import projutils as PU
    rng = ctx.rng
    dt = gen.dt(rng)
    rt, at = DT[dt]
    lead, ml, look = _cases(rng)
    n = int(np.prod(ml)) if ml else 1
    K = np.stack([gen.intrinsics(rng, 4, 5) @ (gen.rigid(rng, .2, .1) if rng.random() < .3 else np.eye(4)) for _ in range(n)]).reshape(*ml, 4, 4)
    P = rng.uniform(-1, 1, lead + (3,))
    P[..., 2] = rng.uniform(.5, 4, lead) * np.where(rng.random(lead) < .2, -1, 1)
    Kt = torch.tensor(K, dtype=dt)
    Pt = torch.tensor(P, dtype=dt)
    K, P = Kt.double().numpy(), Pt.double().numpy()
    hom = rng.random() < .5
    uv = PU.project_points(PU.homogenize_points(Pt) if hom else Pt, Kt)
    want = np.zeros(lead + (2,))
    ok = np.ones(lead, bool)
    for ix in np.ndindex(*lead):
        q = look(K, ix) @ np.append(P[ix], 1)
        ok[ix] = abs(q[2]) > .1
        want[ix] = q[:2] / (q[2] if q[2] != 0 else 1)
    sc = max(1, np.abs(want[ok]).max() if ok.any() else 1)
    ctx.close("projection-formula", uv.detach().double().numpy()[ok], want[ok], rt * 5, at * sc, "lead %s matrices %s" % (lead, ml))
    # zero depth / points at infinity: finite
    Z = Pt.clone()
    zm = torch.tensor(rng.random(lead) < .5)
    Z[zm] = 0
    Kz = Kt.clone(); Kz[..., 2, 3] = 0
    u = PU.project_points(Z, Kz)
    ctx.ok("zero-depth-finite", bool(torch.isfinite(u).all()), "projection of points at the camera centre is not finite")
    ctx.set(lead=lead, ml=ml, dtype=str(dt), hom=hom)
    ctx.state(lead, ml, hom, str(dt))


def unprojection(ctx):
    """unproject then project returns pixel and depth; inverse_intrinsics is the matrix inverse"""
    from gradslam.geometry import projutils as PU
    rng = ctx.rng
    dt = gen.dt(rng)
    rt, at = DT[dt]
    lead, ml, look = _cases(rng)
    n = int(np.prod(ml)) if ml else 1
    K = np.stack([gen.intrinsics(rng, 20, 30) for _ in range(n)]).reshape(*ml, 4, 4)
    Kt = torch.tensor(K, dtype=dt)
    K = Kt.double().numpy()
    Kinv = PU.inverse_intrinsics(Kt)
    ctx.close("inverse-intrinsics", Kinv, np.linalg.inv(K), 1e-4, 1e-5 if dt == torch.float64 else 3e-4)
    K3 = Kt[..., :3, :3].contiguous()
    Kinv3 = PU.inverse_intrinsics(K3)
    ctx.ok("inverse-intrinsics", Kinv3.shape == K3.shape and torch.equal(Kinv3, Kinv[..., :3, :3]), "3x3 and 4x4 inverses differ")
    pix = rng.uniform(0, 30, lead + (2,))
    d = rng.uniform(.3, 6, lead)
    pt, dpt = torch.tensor(pix, dtype=dt), torch.tensor(d, dtype=dt)
    hom = rng.random() < .5
    X = PU.unproject_points(PU.homogenize_points(pt) if hom else pt, Kinv3, dpt)
    ctx.ok("unprojection", X.shape == (*lead, 3), "shape %s" % (tuple(X.shape),))
    Xn = X.detach().double().numpy()
    want = np.zeros(lead + (3,))
    for ix in np.ndindex(*lead):
        want[ix] = np.linalg.inv(look(K, ix)[:3, :3]) @ np.append(pt.double().numpy()[ix], 1) * dpt.double().numpy()[ix]
    ctx.close("unprojection", Xn, want, 1e-4 if dt == torch.float32 else 1e-5, 1e-3 if dt == torch.float32 else 1e-5, "lead %s matrices %s" % (lead, ml))
    ctx.close("unprojected-depth", Xn[..., 2], dpt, rt, at)
    back = PU.project_points(X, Kt)
    ctx.close("round-trip-pixel", back, pt, 0, 5e-3 if dt == torch.float32 else 1e-4, "unproject then project, lead %s matrices %s" % (lead, ml))
    # zero depth stays finite and at the camera centre
    X0 = PU.unproject_points(pt, Kinv3, torch.zeros_like(dpt))
    ctx.ok("zero-depth-finite", bool((X0 == 0).all()), "unprojection at zero depth")
    ctx.set(lead=lead, ml=ml, dtype=str(dt), hom=hom)
    ctx.state(lead, ml, hom, str(dt))


def pixels(ctx):
    from gradslam.geometry import geometryutils as GU
    rng = ctx.rng
    dt = gen.dt(rng)
    rt, at = DT[dt]
    h, w = int(rng.integers(2, 40)), int(rng.integers(2, 40))
    lead = _lead(rng, 0, 4)
    p = torch.tensor(np.stack([rng.uniform(0, h - 1, lead), rng.uniform(0, w - 1, lead)], -1), dtype=dt)
    n = GU.normalize_pixel_coords(p, h, w)
    ctx.close("normalised-formula", n, np.stack([2 * p[..., 0].double().numpy() / (h - 1) - 1, 2 * p[..., 1].double().numpy() / (w - 1) - 1], -1), rt, at)
    ctx.ok("normalised-range", bool((n.abs() <= 1 + 1e-4).all()), "normalised pixel outside [-1,1]")
    ctx.close("round-trip-normalised", GU.unnormalize_pixel_coords(n, h, w), p, rt, at * 40, "normalise then unnormalise (%d,%d)" % (h, w))
    q = torch.tensor(rng.uniform(-1, 1, lead + (2,)), dtype=dt)
    ctx.close("round-trip-normalised", GU.normalize_pixel_coords(GU.unnormalize_pixel_coords(q, h, w), h, w), q, rt, at * 4, "unnormalise then normalise")
    h1, w1 = int(rng.integers(1, 20)), int(rng.integers(1, 20))
    g = GU.create_meshgrid(h1, w1, normalized_coords=False)
    yy, xx = np.meshgrid(np.arange(h1), np.arange(w1), indexing="ij")
    ctx.close("meshgrid", g, np.stack([yy, xx], -1)[None].astype(float), 0, 0)
    gn = GU.create_meshgrid(h, w)
    yy, xx = np.meshgrid(np.linspace(-1, 1, h), np.linspace(-1, 1, w), indexing="ij")
    ctx.close("meshgrid", gn, np.stack([yy, xx], -1)[None], 1e-5, 1e-6)
    ctx.close("meshgrid", GU.normalize_pixel_coords(GU.create_meshgrid(h, w, False), h, w), gn, 1e-5, 1e-5, "normalised grid vs normalised pixels")
    ctx.set(h=h, w=w, lead=lead)
    ctx.state(h > w, len(lead), str(dt), h1, w1)


def legacy(ctx):
    """geometryutils: pixel2cam / cam2pixel / cam2pixel_KF / transform_pts_nd_KF"""
    from gradslam.geometry import geometryutils as GU, projutils as PU
    rng = ctx.rng
    dt = gen.dt(rng)
    rt, at = DT[dt]
    B, h, w = int(rng.integers(1, 4)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    K = gen.intrinsics(rng, h, w)
    Kt = torch.tensor(K, dtype=dt)
    K = Kt.double().numpy()
    d = torch.tensor(rng.uniform(.4, 4, (B, 1, h, w)), dtype=dt)
    vv, uu = np.mgrid[0:h, 0:w].astype(float)
    pix = torch.tensor(np.broadcast_to(np.stack([uu, vv, np.ones_like(uu)], -1), (B, h, w, 3)).copy(), dtype=dt)
    X = GU.pixel2cam(d, torch.inverse(Kt), pix)
    want = np.stack([(np.linalg.inv(K[:3, :3]) @ pix[b].double().numpy().reshape(-1, 3).T).T.reshape(h, w, 3) * d[b, 0].double().numpy()[..., None] for b in range(B)])
    ctx.close("unprojection", X, want, rt * 3, at * 30, "pixel2cam")
    uv = GU.cam2pixel(X, Kt)
    ctx.close("round-trip-pixel", uv, pix[..., :2], rt, at * 60, "pixel2cam then cam2pixel")
    # batched projection matrices
    n = int(rng.integers(1, 6))
    Ps = np.stack([gen.intrinsics(rng, 5, 5) @ gen.rigid(rng, .3, .2) for _ in range(B)])
    pts = rng.uniform(-1, 1, (B, n, 3)); pts[..., 2] = rng.uniform(1.5, 4, (B, n))
    Pt, pt = torch.tensor(Ps, dtype=dt), torch.tensor(pts, dtype=dt)
    uv = GU.cam2pixel_KF(pt, Pt)
    q = np.einsum("bij,bnj->bni", Pt.double().numpy(), np.concatenate([pt.double().numpy(), np.ones((B, n, 1))], -1))
    ctx.close("projection-formula", uv, q[..., :2] / q[..., 2:3], rt * 3, at * 30, "cam2pixel_KF")
    ctx.close("projection-formula", PU.project_points(pt, Pt), q[..., :2] / q[..., 2:3], rt * 3, at * 30, "project_points, one matrix per batch element")
    ctx.close("projection-formula", GU.transform_pts_nd_KF(pt, Pt), q[..., :3], rt * 3, at * 30, "transform_pts_nd_KF")
    zc = torch.zeros(B, 1, 3, dtype=dt)
    ctx.ok("zero-depth-finite", bool(torch.isfinite(GU.cam2pixel_KF(zc, Kt.repeat(B, 1, 1))).all()), "cam2pixel_KF at the camera centre")
    ctx.ok("zero-depth-finite", bool(torch.isfinite(GU.cam2pixel(torch.zeros(B, h, w, 3, dtype=dt), Kt)).all()), "cam2pixel at the camera centre")
    ctx.set(B=B, h=h, w=w, n=n)
    ctx.state(B, h, w, n, str(dt))


def scales(ctx):
    """the same laws far from unit scale: tiny, large and negative depths and homogeneous scales, pixels outside the
    image, long images; errors are measured relative to the terms that make the value up"""
    from gradslam.geometry import geometryutils as GU, projutils as PU
    rng = ctx.rng
    dt = gen.dt(rng)
    e = 3e-6 if dt == torch.float32 else 1e-13
    T = lambda a: torch.tensor(a, dtype=dt)
    N = lambda t: t.detach().double().numpy()
    n = int(rng.integers(1, 12))

    def mag(lo, hi, shape=(n,)):
        return 10 ** rng.uniform(lo, hi, shape) * np.where(rng.random(shape) < .4, -1, 1)

    def near(mon, got, want, size, msg):
        got = N(got)
        bad = ~(np.abs(got - want) <= e * size + 1e-30)
        ctx.ok(mon, got.shape == want.shape and not bad.any(), lambda: "%s: got %s expected %s" % (msg, got[bad][:3], want[bad][:3]))

    # homogeneous scale well away from the documented cut-off
    w, p = T(mag(-5, 3)[:, None]), T(mag(-3, 3, (n, 3)))
    for M in (PU, GU):
        u = M.unhomogenize_points(torch.cat([p, w], -1))
        want = N(p) / N(w)
        near("scale/dehomogenised", u, want, np.abs(want), "unhomogenize_points with scales %s" % N(w)[:3, 0])
        ep = float(10 ** rng.uniform(-3, 0))
        u = M.unhomogenize_points(torch.cat([p, w], -1), ep)
        far, zero = np.abs(N(w)) > ep * 1.1, np.abs(N(w)) < ep * .9
        want = np.where(far, want, N(p))
        keep = (far | zero)[:, 0]
        near("scale/dehomogenised", u[torch.tensor(keep)], want[keep], np.abs(want)[keep], "unhomogenize_points with eps=%.3g" % ep)
    # projection: z may be anything but zero
    H, W = (20, 30) if rng.random() < .5 else (gen.loguniform(rng, 2, 4000), gen.loguniform(rng, 2, 4000))
    K = gen.intrinsics(rng, H, W)
    if rng.random() < .5:
        K = gen.unusual_camera(rng, K, H, W)
    Kt = T(K); K = N(Kt)
    P = np.stack([mag(-3, 2), mag(-3, 2), mag(-4, 2)], -1)
    Pt = T(P); P = N(Pt)
    fx, fy, cx, cy, s = K[0, 0], K[1, 1], K[0, 2], K[1, 2], K[0, 1]
    x, y, z = P.T
    want = np.stack([(fx * x + s * y + cx * z) / z, (fy * y + cy * z) / z], -1)
    size = np.stack([(np.abs(fx * x) + np.abs(s * y) + np.abs(cx * z)) / np.abs(z), (np.abs(fy * y) + np.abs(cy * z)) / np.abs(z)], -1)
    near("scale/projected", PU.project_points(Pt, Kt), want, size, "project_points of %s" % P[:2])
    near("scale/projected", GU.cam2pixel_KF(Pt[None], Kt[None])[0], want, size, "cam2pixel_KF of %s" % P[:2])
    near("scale/projected", GU.cam2pixel(Pt[None, None], Kt)[0, 0], want, size, "cam2pixel of %s" % P[:2])
    # the inverse of the camera, up to the documented 1e-6 added to its focal lengths
    ef = 2e-6 / min(abs(fx), abs(fy))
    for k in (3, 4):
        for lead in ((), (1,), (2, 1), (1, 2, 1)):
            Kk = Kt if k == 4 else Kt[:3, :3]
            got = N(PU.inverse_intrinsics(Kk.expand(*lead, k, k).contiguous() if lead else Kk.contiguous()))
            want = np.broadcast_to(np.linalg.inv(K)[:k, :k], lead + (k, k))
            size = np.zeros((k, k)); size[0, :3] = 1 / abs(fx), abs(s / fx / fy), abs(cx / fx) + abs(s * cy / fx / fy); size[1, 1:3] = 1 / abs(fy), abs(cy / fy)
            bad = ~(np.abs(got - want) <= (e + ef) * size + 1e-30) if got.shape == want.shape else np.ones((), bool)
            ctx.ok("scale/inverse-intrinsics", not bad.any(), lambda: "inverse_intrinsics of %s (%s): got %s expected %s" % (K[:3, :3].tolist(), lead, got[bad][:3], want[bad][:3]))
    # unprojection is linear in the depth, whatever its sign and size
    Ki = T(np.linalg.inv(K))
    d, pix = T(mag(-4, 3)), T(np.concatenate([rng.uniform(-1, 2, (n, 2)) * [W, H], np.ones((n, 1))], -1))
    A = N(Ki)[:3, :3]
    want = (N(pix) @ A.T) * N(d)[:, None]
    size = (np.abs(N(pix)) @ np.abs(A).T) * np.abs(N(d))[:, None]
    near("scale/unprojected", PU.unproject_points(pix, Ki[:3, :3], d), want, size, "unproject_points at depths %s" % N(d)[:3])
    near("scale/unprojected", PU.unproject_points(pix[:, :2], Ki[:3, :3], d), want, size, "unproject_points at depths %s" % N(d)[:3])
    near("scale/unprojected", GU.pixel2cam(d[None, None, None], Ki, pix[None, None])[0, 0], want, size, "pixel2cam at depths %s" % N(d)[:3])
    # pixels, inside the image or not, of images of any size
    h, wd = int(10 ** rng.uniform(.31, 4)), int(10 ** rng.uniform(.31, 4))
    side = np.array([h - 1, wd - 1.0])
    q = T(rng.uniform(-3, 3, (n, 2)) * side)
    want = 2 * N(q) / side - 1
    nq = GU.normalize_pixel_coords(q, h, wd)
    near("scale/normalised", nq, want, 1 + np.abs(2 * N(q) / side), "normalize_pixel_coords(%d, %d)" % (h, wd))
    want = (N(nq) + 1) * side / 2
    near("scale/normalised", GU.unnormalize_pixel_coords(nq, h, wd), want, side * (1 + np.abs(N(nq))), "unnormalize_pixel_coords(%d, %d)" % (h, wd))
    if rng.random() < .3:
        big, small = int(rng.integers(2000, 20000)), int(rng.integers(1, 4))
        hh, ww = (big, small) if rng.random() < .5 else (small, big)
        g = GU.create_meshgrid(hh, ww, normalized_coords=False)
        yy, xx = np.meshgrid(np.arange(hh), np.arange(ww), indexing="ij")
        ctx.close("meshgrid", g, np.stack([yy, xx], -1)[None].astype(float), 0, 0, "%d x %d" % (hh, ww))
    ctx.set(n=n, dtype=str(dt), size=(h, wd))
    ctx.state(str(dt), n, int(np.log10(h)), int(np.log10(wd)), *np.round(np.log10(np.abs(N(d)[:2]))).astype(int))


CHECK = Check("C07", [
    Family("homogeneous", homogeneous, 300, 4000),
    Family("projection", projection, 500, 8000),
    Family("unprojection", unprojection, 500, 8000),
    Family("pixels", pixels, 200, 3000),
    Family("legacy", legacy, 200, 3000),
    Family("scales", scales, 400, 8000),
], require=["round-trip-homogeneous", "zero-scale-finite", "projection-formula", "unprojection", "round-trip-pixel", "inverse-intrinsics", "round-trip-normalised", "zero-depth-finite",
            "scale/dehomogenised", "scale/projected", "scale/unprojected", "scale/normalised", "scale/inverse-intrinsics"],
    rule="case = one random leading shape x matrix batching x dtype; distinct = those signatures",
    assumptions=["a homogeneous scale or depth within 1e-6 of zero (the documented cut-off) is only checked for finiteness", "normalisation needs images at least two pixels on a side"])
