"""C10: differentiable (smooth-LM) ICP."""
import numpy as np
import torch

from checks.c09 import cast, check_rigid, tens
from vlib import gen, icpmodel as M
from vlib.core import Check, Family, Skip


def params(rng):
    kw = {}
    if rng.random() < .7:
        kw["lambda_max"] = float(rng.uniform(1, 6)) if rng.random() < .7 else int(rng.integers(1, 5))
    if rng.random() < .7:
        kw["B"] = float(rng.uniform(0, 5)) if rng.random() < .7 else int(rng.integers(0, 4))
    if rng.random() < .7:
        kw["B2"] = float(rng.uniform(0, 5)) if rng.random() < .7 else int(rng.integers(0, 4))
    if rng.random() < .7:
        kw["nu"] = float(10 ** rng.uniform(-.8, 2.5)) if rng.random() < .7 else int(rng.integers(1, 300))
    if rng.random() < .15:       # nearly a hard switch between accepting and damping
        for k in ("B", "B2"):
            if rng.random() < .7:
                kw[k] = float(10 ** rng.uniform(.5, 2.5))
        if rng.random() < .5:
            kw["nu"] = float(10 ** rng.uniform(1, 4))
    if rng.random() < .1:
        kw["lambda_max"] = float(10 ** rng.uniform(.5, 3)) if rng.random() < .7 else int(rng.integers(5, 400))
    return kw


def full(kw):
    d = dict(lambda_max=2.0, B=1.0, B2=1.0, nu=200.0)
    d.update(kw)
    return d


def scene(rng):
    kind = rng.choice(["random", "surface", "spaced", "large", "far"])
    if kind in ("surface", "spaced"):
        src, tgt, nrm, _, _ = M.overlapping_pair(rng, str(kind))
        src = M.apply(M.small_motion(rng, .15, .15), src)
    else:
        tgt, nrm = M.random_cloud(rng, int(rng.integers(10, 40)), 6.0 if kind == "large" else 1.0)
        src, _ = M.random_cloud(rng, int(rng.integers(10, 40)) if rng.random() < .96 else gen.loguniform(rng, 100, 2000), 6.0 if kind == "large" else 1.0)
        if kind == "far":
            src = src + rng.uniform(-2, 2, 3)
    return str(kind), src, tgt, nrm


def law(ctx):
    """every iteration follows the documented smooth update, compared with an independent model"""
    from gradslam.odometry.icputils import point_to_plane_gradICP
    rng = ctx.rng
    kind, src, tgt, nrm = scene(rng)
    T0 = np.eye(4) if rng.random() < .4 else gen.rigid(rng, max_angle=rng.choice([.1, 3]), max_t=1)
    src = M.apply(np.linalg.inv(T0), src)
    thr = None if rng.random() < .5 else (float(rng.uniform(.3, 1.5)) * (4 if kind == "large" else 1) if rng.random() < .8 else 1)
    damp = float(10 ** rng.uniform(-3, 2)) if rng.random() < .8 else 1e-8
    kw = params(rng)
    if rng.random() < .15:
        # error changes beyond the clamp with gentle slopes: the clamp is visible
        kw["B"], kw["B2"] = float(rng.uniform(0, .02)), float(rng.uniform(0, .02))
        kw["nu"] = float(rng.uniform(1, 4))
    iters = int(rng.integers(1, 7))
    if rng.random() < .15:
        # many small steps: the law still acts visibly in late iterations
        iters = int(rng.integers(7, 32))
        kw["nu"] = float(10 ** rng.uniform(-1, 0))
        kw["B2"] = float(10 ** rng.uniform(-1.5, .5))
    dt = torch.float64 if rng.random() < .8 else torch.float32
    single = dt == torch.float32
    if single:
        damp = max(damp, 1e-2)
    src, tgt, nrm, T0 = cast(dt, src, tgt, nrm, T0)
    want, amb, cond, tr = M.grad_lm(src, tgt, nrm, T0, iters, damp, thr, full(kw)["lambda_max"], *[full(kw)[k] for k in ("B", "B2", "nu")])
    if amb or cond > (1e4 if single else 1e6) or not np.isfinite(want).all():
        raise Skip()
    args = tens(dt, src, tgt, nrm)
    T0t = torch.tensor(T0, dtype=dt)
    T, idx = point_to_plane_gradICP(*args, T0t, iters, damp, thr, **kw)
    check_rigid(ctx, T, dt)
    # rounding amplified by the conditioning of each solve and by chaotic pairings is bounded by a perturbed rerun of the model
    eps = 1e-6 if single else 1e-11
    pert, amb2, _, _ = M.grad_lm(src * (1 + eps), tgt, nrm, T0, iters, damp, thr, full(kw)["lambda_max"], *[full(kw)[k] for k in ("B", "B2", "nu")])
    spread = np.abs(pert - want).max()
    if not spread < (1e-2 if single else 1e-4):
        raise Skip()
    if single:
        ctx.count("single-precision-runs")
    ctx.count("long-runs", int(iters > 6))
    ctx.count("steep-runs", int(max(full(kw)["B"], full(kw)["B2"]) > 5))
    ctx.close("smooth-law", T, want, 1e-9, 1e-3 + 20 * spread + 1e-6 * cond if single else 1e-7 + 20 * spread + 1e-13 * cond,
              "%s, %d iterations, damp %g, thr %s, %s; model trace (err, clamped change, damping factor, step factor, damp) %s" % (kind, iters, damp, thr, kw, tr[:2]))
    for e, d, q, s, dm in tr:
        ctx.count("model-steps")
        ctx.count("model-steps-error-increased", int(d > 0))
        ctx.count("model-steps-clamped", int(abs(d) >= 70))
    lin = M.Lin(M.apply(want, src), tgt, nrm, thr)
    ctx.eq("initial-transform-unchanged", T0t, T0)
    ctx.set(kind=kind, iters=iters, damp=damp, thr=thr, kw=kw, trace=tr[:3])
    ctx.state(kind, iters, thr is None, tuple(sorted(kw)), sum(d > 0 for _, d, _, _, _ in tr), any(abs(d) >= 70 for _, d, _, _, _ in tr))


def rigid(ctx):
    """whatever the clouds, the result is a proper rigid motion"""
    from gradslam.odometry.icputils import point_to_plane_gradICP
    rng = ctx.rng
    dt = gen.dt(rng)
    kind, src, tgt, nrm = scene(rng)
    T0 = gen.rigid(rng, max_t=1)
    kw = params(rng)
    thr = None if rng.random() < .6 else float(rng.uniform(.3, 1.5))
    s, t, n = tens(dt, src, tgt, nrm)
    iters = int(rng.choice([1, 3, 10, 20]))
    if rng.random() < .01:
        iters = gen.loguniform(rng, 100, 900)          # long after convergence
    damp = float(10 ** rng.uniform(-4, 1))
    T, idx = point_to_plane_gradICP(s, t, n, torch.tensor(T0, dtype=dt), iters, damp, thr, **kw)
    ctx.ok("index-range", idx.numel() == 0 or (0 <= int(idx.min()) and int(idx.max()) < len(tgt)), "pair indices out of range")
    ctx.ok("index-count", idx.numel() == len(src) if thr is None else idx.numel() <= len(src), "%d indices for %d source points" % (idx.numel(), len(src)))
    if not torch.isfinite(T).all():
        # only acceptable when too few pairs are left to constrain the motion
        if thr is None:
            ctx.fail("rigid", "%s: transform not finite after %d iterations %s" % (kind, iters, kw))
    else:
        big = float(T.abs().max())
        ctx.count("finite-results")
        check_rigid(ctx, T, torch.float32 if big > 100 else dt, "rigid", kind)
    ctx.set(kind=kind, iters=iters, thr=thr, dtype=str(dt))
    ctx.state(kind, iters, thr is None, str(dt))


def aligned(ctx):
    from gradslam.odometry.icputils import point_to_plane_gradICP
    rng = ctx.rng
    dt = gen.dt(rng)
    kind = rng.choice(["aligned", "aligned", "no-source", "no-target", "out-of-reach", "none-is-identity"])
    if rng.random() < .5:
        tgt, nrm = M.random_cloud(rng, int(rng.integers(8, 30)))
    else:
        tgt, nrm = M.surface_cloud(rng, int(rng.integers(4, 9)))
    src = tgt[rng.permutation(len(tgt))]
    T0 = gen.rigid(rng)
    thr = None if rng.random() < .5 else .3
    kw = params(rng)
    if kind == "no-source":
        src = src[:0]
    if kind == "no-target":
        tgt, nrm = tgt[:0], nrm[:0]
    if kind == "out-of-reach":
        src, thr = src + 50, .3
    src = M.apply(np.linalg.inv(T0), src)
    s, t, n = tens(dt, src, tgt, nrm)
    if kind == "none-is-identity":
        a, i = point_to_plane_gradICP(s, t, n, None, 3, 1e-2, thr, **kw)
        b, j = point_to_plane_gradICP(s, t, n, torch.eye(4, dtype=dt), 3, 1e-2, thr, **kw)
        ctx.eq("no-initial-is-identity", a, b)
        ctx.eq("no-initial-is-identity", i, j)
    else:
        T, idx = point_to_plane_gradICP(s, t, n, torch.tensor(T0, dtype=dt), int(rng.integers(1, 8)), float(10 ** rng.uniform(-5, 0)), thr, **kw)
        ctx.close("aligned-stays-in-place", T, T0, 0, 2e-4 if dt == torch.float32 else 1e-7, str(kind))
    ctx.set(kind=str(kind), dtype=str(dt), n=len(tgt))
    ctx.state(str(kind), str(dt), thr is None, len(tgt))


def recover(ctx):
    from gradslam.odometry.icputils import point_to_plane_gradICP
    rng = ctx.rng
    dt = gen.dt(rng)
    src, tgt, nrm, true, kind = M.overlapping_pair(rng)
    T0 = np.eye(4)
    init = rng.choice(["none", "identity", "given"])
    if init == "given":
        T0 = gen.rigid(rng, max_t=1)
        src = M.apply(np.linalg.inv(T0), src)
        true = true @ T0
    thr = None if rng.random() < .6 else float(rng.uniform(.2, .5))
    s, t, n = tens(dt, src, tgt, nrm)
    if thr is not None and rng.random() < .6:
        extra = M.apply(np.linalg.inv(true), rng.uniform(-1, 1, (6, 3)) + np.array([8.0, 8, 8]))
        s = torch.cat([s, torch.tensor(extra, dtype=dt)[None]], 1)
    kw = {} if init == "none" else {"initial_transform": torch.tensor(T0, dtype=dt)}
    if thr is not None:
        kw["dist_thresh"] = thr
    T, idx = point_to_plane_gradICP(s, t, n, numiters=int(rng.choice([20, 25, 30])), **kw)
    check_rigid(ctx, T, dt)
    ctx.close("recovers-true-motion", T, true, 0, 2e-3 if dt == torch.float32 else 1e-5, "%s cloud of %d, init %s, thr %s" % (kind, len(tgt), init, thr))
    ctx.set(kind=kind, init=str(init), thr=thr, n=len(tgt), dtype=str(dt))
    ctx.state(kind, str(init), thr is None, str(dt), len(tgt))


def provider(ctx):
    """provide() per batch element against the model: every configured parameter reaches the solver"""
    from gradslam.odometry.gradicp import GradICPOdometryProvider
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = torch.float64
    B = int(rng.integers(1, 4))
    sc = [scene(rng) for _ in range(B)]
    kw = params(rng)
    iters, damp = int(rng.integers(1, 6)), float(10 ** rng.uniform(-2, 2))
    thr = None if rng.random() < .5 else float(rng.uniform(.3, 1.5))
    maps = Pointclouds([torch.tensor(s[2]) for s in sc], [torch.tensor(s[3]) for s in sc])
    frames = Pointclouds([torch.tensor(s[1]) for s in sc], [torch.tensor(s[1]) for s in sc] if rng.random() < .3 else None)
    prov = GradICPOdometryProvider(iters, damp, thr, **kw)
    before = [x.clone() for x in maps.points_list + maps.normals_list + frames.points_list]
    T = prov.provide(maps, frames)
    if not ctx.ok("provider-shape", tuple(T.shape) == (B, 1, 4, 4), "%s" % (T.shape,)):
        return
    for b in range(B):
        f = full(kw)
        a = (sc[b][1], sc[b][2], sc[b][3], np.eye(4), iters, damp, thr, f["lambda_max"], f["B"], f["B2"], f["nu"])
        want, amb, cond, tr = M.grad_lm(*a)
        pert = M.grad_lm(a[0] * (1 + 1e-11), *a[1:])[0]
        spread = np.abs(pert - want).max()
        if amb or cond > 1e6 or not spread < 1e-4:
            ctx.count("ambiguous-elements-skipped")
            continue
        ctx.close("provider-smooth-law", T[b, 0], want, 1e-9, 1e-7 + 20 * spread + 1e-13 * cond, "element %d of %d %s" % (b, B, kw))
    ctx.ok("provider-operands-unchanged", all(torch.equal(x, y) for x, y in zip(before, maps.points_list + maps.normals_list + frames.points_list)), "inputs changed")
    ctx.raises("provider-rejects", (ValueError,), lambda: prov.provide(Pointclouds([torch.rand(4, 3)]), Pointclouds([torch.rand(4, 3)])), "map without normals")
    ctx.raises("provider-rejects", (ValueError,), lambda: prov.provide(maps, Pointclouds([torch.rand(4, 3)] * (B + 1))), "batch mismatch")
    ctx.raises("provider-rejects", (TypeError,), lambda: prov.provide("map", frames), "type")
    # single precision: same relative transforms element by element
    if rng.random() < .4:
        pr = [M.overlapping_pair(rng) for _ in range(B)]
        m = Pointclouds([torch.tensor(p[1], dtype=torch.float32) for p in pr], [torch.tensor(p[2], dtype=torch.float32) for p in pr])
        fr = Pointclouds([torch.tensor(p[0], dtype=torch.float32) for p in pr])
        T = GradICPOdometryProvider(20).provide(m, fr)
        for b in range(B):
            ctx.close("recovers-true-motion", T[b, 0], pr[b][3], 0, 3e-3, "provider, element %d" % b)
    ctx.set(B=B, iters=iters, damp=damp, thr=thr, kw=kw)
    ctx.state(B, iters, thr is None, tuple(sorted(kw)), tuple(s[0] for s in sc))


CHECK = Check("C10", [
    Family("law", law, 700, 12000),
    Family("rigid", rigid, 150, 3000),
    Family("aligned", aligned, 150, 3000),
    Family("recover", recover, 120, 3000),
    Family("provider", provider, 200, 4000),
], require=["smooth-law", "model-steps-error-increased", "model-steps-clamped", "rigid", "aligned-stays-in-place", "no-initial-is-identity", "recovers-true-motion", "provider-smooth-law"],
    rule="case = random clouds and smooth-LM parameters; distinct = (scene, iterations, threshold use, parameters given, steps with rising error, clamp reached)",
    assumptions=["comparisons with the model are skipped when two candidate pairs are within rounding of each other or the iteration is chaotic (a 1e-11 perturbation changes the model by more than 1e-4)",
                 "recovery is claimed for displacements well below the point spacing"])
