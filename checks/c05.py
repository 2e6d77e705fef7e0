"""C05: vertex and normal maps obey the pinhole camera model at every pixel."""
import numpy as np
import torch

from vlib import gen, rgbdmodel
from vlib.core import Check, Family


def _maps(ctx, c, o, order=None):
    names = ["vertex_map", "normal_map", "global_vertex_map", "global_normal_map"]
    ctx.rng.shuffle(names)
    return {n: rgbdmodel.last(getattr(o, n), c.cf) for n in names}


def pixelwise(ctx):
    rng = ctx.rng
    c = rgbdmodel.random_content(rng, big=.03, wide=.15)
    c.pix = None
    o = c.build()
    M = _maps(ctx, c, o)
    B, L, h, w = c.shape
    f32 = c.dtype == torch.float32
    ctx.set(shape=c.shape, cf=c.cf, dtype=str(c.dtype), poses=c.poses is not None)
    val = c.depth > 0
    V, N, GV, GN = M["vertex_map"], M["normal_map"], M["global_vertex_map"], M["global_normal_map"]
    for nm, A in M.items():
        ctx.ok("shape", A.shape == (B, L, h, w, 3), lambda: "%s shape %s" % (nm, A.shape))
        ctx.ok("finite", np.isfinite(A).all(), "%s has non-finite entries" % nm)
        ctx.ok("invalid-pixels-zero", (A[~val] == 0).all(), "%s is not zero where depth is not positive" % nm)
    # third coordinate is the depth
    ctx.close("z-is-depth", V[..., 2][val], c.depth[val], 1e-6, 1e-7)
    # re-projection through the frame's own intrinsics (per batch element)
    vv, uu = np.mgrid[0:h, 0:w].astype(float)
    for b in range(B):
        K = c.K[b, 0]
        for s in range(L):
            q = V[b, s] @ K[:3, :3].T
            m = val[b, s]
            if m.any():
                ctx.close("reprojects-to-own-pixel", (q[..., :2][m] / q[..., 2:][m]), np.stack([uu[m], vv[m]], -1),
                          0, 3e-3 if f32 else 5e-5, "batch %d frame %d" % (b, s))
            P = np.eye(4) if c.poses is None else c.poses[b, s]
            want = V[b, s] @ P[:3, :3].T + P[:3, 3]
            sc = max(1, np.abs(want).max())
            ctx.close("global-is-pose-applied", GV[b, s][m], want[m], 0, (2e-5 if f32 else 1e-9) * sc, "batch %d frame %d" % (b, s))
            ctx.close("global-normal-is-rotated", GN[b, s], N[b, s] @ P[:3, :3].T, 0, 1e-5 if f32 else 1e-9)
            # normals from the code's own vertices: unit cross product of forward differences
            want, ln, sc2 = gen.normal_oracle(V[b, s], c.depth[b, s]) if h > 1 and w > 1 else (np.zeros((h, w, 3)), np.zeros((h, w)), np.zeros((h, w)))
            if h > 1 and w > 1:
                cond = (ln > (5e-3 if f32 else 1e-6) * sc2) & (ln > (1e-6 if f32 else 1e-12)) | ~m
                ctx.close("normal-is-unit-cross-product", N[b, s][cond], want[cond], 0, 2e-3 if f32 else 1e-6, "batch %d frame %d" % (b, s))
            nl = np.linalg.norm(N[b, s], axis=-1)
            ctx.ok("normal-unit-or-zero", ((np.abs(nl - 1) < 1e-4) | (nl == 0)).all(), lambda: "normal lengths %s" % nl[(np.abs(nl - 1) >= 1e-4) & (nl != 0)][:4])
            if m.any():
                ctx.state(b, s, L, c.cf, c.poses is not None, abs(K[0, 1]) > 0, m.all(), h > w, str(c.dtype))
    ctx.count("pixels", int(val.size))
    ctx.count("invalid-pixels", int((~val).sum()))


def degenerate(ctx):
    """Vertices whose differences are parallel or zero: normals are zero, never NaN."""
    rng = ctx.rng
    h, w = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    c = rgbdmodel.random_content(rng, h=h, w=w, missing="none")
    c.pix = None
    kind = rng.choice(["all-missing", "row-line", "thin", "isolated", "checker"])
    if kind == "all-missing":
        c.depth[:] = 0
    elif kind == "isolated":
        k = c.depth.copy(); c.depth[:] = 0
        c.depth[..., h // 2, w // 2] = k[..., h // 2, w // 2]
    elif kind == "checker":
        c.depth[..., (np.add.outer(np.arange(h), np.arange(w)) % 2).astype(bool)] = 0
    elif kind == "row-line":
        c.depth[..., 1:, :] = 0
    o = c.build()
    M = _maps(ctx, c, o)
    val = c.depth > 0
    for nm, A in M.items():
        ctx.ok("finite", np.isfinite(A).all(), "%s has non-finite entries (%s %dx%d)" % (nm, kind, h, w))
        ctx.ok("invalid-pixels-zero", (A[~val] == 0).all(), nm)
    nl = np.linalg.norm(M["normal_map"], axis=-1)
    ctx.ok("normal-unit-or-zero", ((np.abs(nl - 1) < 1e-4) | (nl == 0)).all(), "lengths %s" % nl.ravel()[:5])
    if h == 1 or w == 1:
        ctx.ok("degenerate-normal-zero", (nl == 0).all(), "a single pixel row/column has no normal, got %s" % nl.ravel()[:5])
    ctx.set(kind=kind, h=h, w=w)
    ctx.state(kind, h, w, c.cf)


def scene(ctx):
    """A known plane seen by a known camera: vertices lie on it and normals are its normal."""
    rng = ctx.rng
    B, h, w = int(rng.integers(1, 3)), int(rng.integers(4, 10)), int(rng.integers(4, 10))
    cf = bool(rng.random() < .5)
    K = np.stack([gen.intrinsics(rng, h, w)[None] for _ in range(B)])
    P = gen.rigids(rng, (B, 1))
    vv, uu = np.mgrid[0:h, 0:w].astype(float)
    D, NN, OFF = [], [], []
    for b in range(B):
        n = np.array([rng.uniform(-.4, .4), rng.uniform(-.4, .4), 1.0]); n /= np.linalg.norm(n)
        d0 = rng.uniform(1.5, 3)
        rays = np.stack([uu, vv, np.ones_like(uu)], -1) @ np.linalg.inv(K[b, 0][:3, :3]).T
        den = rays @ n
        dep = d0 / den
        if (den < .3).any():
            dep = np.full_like(dep, d0); n = np.array([0, 0, 1.0])
        D.append(dep[None]); NN.append(n); OFF.append(d0)
    c = rgbdmodel.Content(rng.uniform(0, 1, (B, 1, h, w, 3)), np.stack(D), K, P, torch.float64, cf)
    o = c.build()
    M = _maps(ctx, c, o)
    for b in range(B):
        ctx.close("plane-points", M["vertex_map"][b, 0] @ NN[b], np.full((h, w), OFF[b]), 1e-4, 1e-5)
        wn = NN[b]
        gotn = M["normal_map"][b, 0].reshape(-1, 3)
        ctx.close("plane-normals", np.abs(gotn @ wn), np.ones(h * w), 0, 1e-3)
        ctx.ok("plane-normals-consistent-side", len(set(np.sign(gotn @ wn))) == 1, "normals of a plane flip side")
        g = P[b, 0]
        wp, wnn = g[:3, :3] @ wn, None
        off = OFF[b] + (g[:3, :3] @ wn) @ g[:3, 3]
        ctx.close("plane-points-global", M["global_vertex_map"][b, 0] @ wp, np.full((h, w), off), 1e-4, 1e-4)
        ctx.close("plane-normals-global", M["global_normal_map"][b, 0].reshape(-1, 3), gotn @ g[:3, :3].T, 0, 1e-8)
    ctx.set(B=B, h=h, w=w, cf=cf)
    ctx.state(B, h, w, cf)


CHECK = Check("C05", [
    Family("pixelwise", pixelwise, 500, 8000),
    Family("degenerate", degenerate, 150, 2000),
    Family("scene", scene, 120, 2000),
], require=["z-is-depth", "reprojects-to-own-pixel", "global-is-pose-applied", "normal-is-unit-cross-product", "global-normal-is-rotated", "invalid-pixels-zero", "plane-points"],
    rule="case = one RGB-D batch, every pixel of every map judged by a numpy camera; distinct = (batch element, frame, sequence length, layout, poses, skew, full/partial validity, aspect, dtype)",
    assumptions=["normals compared where the differences are well conditioned", "inverse_intrinsics' eps 1e-6 tolerated"])
