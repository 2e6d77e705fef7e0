"""C09: point-to-plane ICP."""
import numpy as np
import torch

from vlib import gen, icpmodel as M
from vlib.core import Check, Family, Skip


def tens(dt, *arrs):
    return [torch.tensor(a, dtype=dt).unsqueeze(0) for a in arrs]


def cast(dt, *arrs):
    """numpy values as the code sees them"""
    return [torch.tensor(a, dtype=dt).double().numpy() for a in arrs]


def check_rigid(ctx, T, dt, mon="rigid", msg=""):
    T = T.detach().double().numpy() if torch.is_tensor(T) else T
    tol = 2e-4 if dt == torch.float32 else 1e-6
    ctx.close(mon, T[:3, :3] @ T[:3, :3].T, np.eye(3), 0, tol, msg)
    ctx.close(mon, np.linalg.det(T[:3, :3]), 1.0, 0, tol, msg)
    ctx.close(mon, T[3], np.array([0, 0, 0, 1.0]), 0, 0, msg)


def linear(ctx):
    from gradslam.odometry.icputils import gauss_newton_solve
    rng = ctx.rng
    dt = gen.dt(rng)
    ns, nt = [int(rng.choice([0, 1, 2, 7, 40])), int(rng.choice([1, 2, 7, 40]))] if rng.random() < .5 else [int(rng.integers(0, 20)), int(rng.integers(1, 20))]
    if rng.random() < .03:
        ns, nt = (gen.loguniform(rng, 100, 5000), nt) if rng.random() < .5 else (ns, gen.loguniform(rng, 100, 5000))
    tgt, nrm = M.random_cloud(rng, nt, 10 ** rng.uniform(-1, 1))
    src = rng.uniform(-1, 1, (ns, 3)) * np.abs(tgt).max() * rng.choice([.5, 1, 3])
    if rng.random() < .2 and ns and nt:
        src = tgt[rng.integers(0, nt, ns)] + rng.choice([0, 1e-3]) * rng.normal(size=(ns, 3))
    if rng.random() < .2:
        nrm = nrm * rng.uniform(.1, 3, (nt, 1))
    if rng.random() < .2 and nt > 1:
        tgt[rng.integers(0, nt)] = tgt[0]
    if rng.random() < .15:
        src = src + np.array([20.0, -15, 8])
        tgt = tgt + np.array([20.0, -15, 8])
    src, tgt, nrm = cast(dt, src, tgt, nrm)
    i, d, gap = M.nearest(src, tgt)
    mode = rng.choice(["none", "mid", "mid", "below", "above", "int"])
    thr = None
    if mode == "mid" and ns:
        ds = np.sort(d)
        k = int(rng.integers(0, ns))
        thr = float((ds[k] + (ds[k + 1] if k + 1 < ns else ds[k] + 1)) / 2)
    elif mode == "below":
        thr = float(max(d.min() * .5, 1e-9)) if ns else .1
        if rng.random() < .4:
            thr = [0.0, 0][int(rng.integers(0, 2))]      # nothing is nearer than nothing
    elif mode == "above":
        thr = float(d.max() * 1.5 + 1e-3) if ns else .1
    elif mode == "int":
        thr = 1
    scale = max(1.0, np.abs(tgt).max(), np.abs(src).max() if ns else 1)
    slack = 4e-6 * scale
    if thr is not None and ns and (np.abs(d - thr) < slack + 1e-4 * thr).any():
        raise Skip()
    s, t, n = tens(dt, src, tgt, nrm)
    if rng.random() < .2:
        s = s.transpose(1, 2).contiguous().transpose(1, 2)
        n = n.transpose(1, 2).contiguous().transpose(1, 2)
    A, b, idx = gauss_newton_solve(s, t, n, thr) if rng.random() < .8 or thr is not None else gauss_newton_solve(s, t, n)
    keep = np.ones(ns, bool) if thr is None else d < thr
    idx = idx.reshape(-1).numpy()
    desc = "%d source, %d target points, threshold %s" % (ns, nt, thr)
    if not ctx.ok("threshold-filter", len(idx) == keep.sum(), lambda: "%s: %d pairs kept, %d source points are nearer than the threshold" % (desc, len(idx), keep.sum())):
        return
    ctx.ok("system-shape", tuple(A.shape) == (keep.sum(), 6) and tuple(b.shape) == (keep.sum(), 1), "%s %s" % (A.shape, b.shape))
    if keep.sum():
        got = np.linalg.norm(src[keep] - tgt[idx], axis=1)
        ctx.close("nearest-neighbour", got, d[keep], 0, slack, desc)
        p, nn = tgt[idx], nrm[idx]
        tol = 2e-5 if dt == torch.float32 else 1e-11
        ctx.close("point-to-plane-equations", A, np.concatenate([nn, np.cross(src[keep], nn)], 1), 0, tol * scale * 3)
        ctx.close("point-to-plane-equations", b, (nn * (p - src[keep])).sum(1)[:, None], 0, tol * scale * 6)
        ctx.count("pairs", int(keep.sum()))
        ctx.count("pairs-filtered", int((~keep).sum()))
    ctx.set(ns=ns, nt=nt, thr=thr, mode=str(mode), dtype=str(dt))
    ctx.state(ns, nt, str(mode), str(dt), int(keep.sum()))


def solve(ctx):
    from gradslam.odometry.icputils import solve_linear_system
    rng = ctx.rng
    dt = gen.dt(rng)
    n, m = int(rng.integers(1, 30)), int(rng.integers(1, 8))
    if rng.random() < .05:
        n = gen.loguniform(rng, 40, 8000)
    A = rng.normal(size=(n, m)) * 10 ** rng.uniform(-1, 1)
    b = rng.normal(size=(n, 1)) * 10 ** rng.uniform(-1, 1)
    kind = rng.choice(["generic", "deficient", "zero"], p=[.7, .2, .1])
    if kind == "deficient" and m > 1:
        A[:, -1] = A[:, 0] * 2
    if kind == "zero":
        A[:] = 0
    damp = float(10 ** rng.uniform(-8, 2))
    if kind == "deficient" or n < m:
        damp = float(10 ** rng.uniform(-2, 2))
    elif kind == "generic" and n > m and rng.random() < .1:
        damp = [0.0, 1e-13][int(rng.integers(0, 2))]
    A, b = cast(dt, A, b)
    H = A.T @ A + damp * np.eye(m)
    cond = np.linalg.cond(H)
    if cond > (1e4 if dt == torch.float32 else 1e9):
        raise Skip()
    At, bt = torch.tensor(A, dtype=dt), torch.tensor(b, dtype=dt)
    how = int(rng.integers(0, 3))
    dp = damp if how == 0 else torch.tensor(damp, dtype=dt) if how == 1 else torch.tensor(damp, dtype=torch.float32)
    x = solve_linear_system(At, bt, dp)
    tol = (2e-6 if dt == torch.float32 else 1e-12) * cond * 20
    if how == 2:
        tol = max(tol, 1e-6)
    want = np.linalg.solve(H, A.T @ b)
    ctx.close("damped-normal-equations", x, want, 0, tol * (np.abs(want).max() + np.linalg.norm(A) * np.linalg.norm(b) / np.linalg.norm(H, 2)) + 1e-12, "cond %.1e damp %g %s" % (cond, damp, kind))
    ctx.eq("solve-operands-unchanged", At, A)
    ctx.set(n=n, m=m, damp=damp, kind=str(kind), dtype=str(dt))
    ctx.state(n, m, str(kind), str(dt), how)


def steps(ctx):
    from gradslam.odometry.icputils import point_to_plane_ICP
    rng = ctx.rng
    dt = torch.float64 if rng.random() < .7 else torch.float32
    scene = rng.choice(["random", "surface", "spaced", "far", "thin"])
    if scene in ("surface", "spaced"):
        src, tgt, nrm, true, _ = M.overlapping_pair(rng, str(scene))
        src = M.apply(M.small_motion(rng, .2, .2), src)
    else:
        tgt, nrm = M.random_cloud(rng, int(rng.integers(8, 40)))
        src, _ = M.random_cloud(rng, int(rng.integers(8, 40)) if rng.random() < .96 else gen.loguniform(rng, 100, 3000))
        if scene == "far":
            src = src + rng.uniform(-3, 3, 3)
        if scene == "thin":
            tgt[:, 2] *= 1e-3
            nrm = M.unit(np.array([0, 0, 1.0]) + rng.normal(size=nrm.shape) * .01)
    T0 = np.eye(4) if rng.random() < .3 else gen.rigid(rng, max_angle=rng.choice([.1, 1, 3]), max_t=rng.choice([.1, 1]))
    src = M.apply(np.linalg.inv(T0), src)
    thr = None if rng.random() < .5 else (float(rng.uniform(.15, 1.2)) if rng.random() < .8 else 1)
    damp = float(rng.choice([1e-8, 1e-4, 1e-2, 1.0, 30.0]))
    if rng.random() < .2:
        damp = float(10 ** rng.uniform(1, 7)) if rng.random() < .6 or scene == "thin" or thr is not None else [0.0, 1e-13, 0][int(rng.integers(0, 3))]
    src, tgt, nrm, T0 = cast(dt, src, tgt, nrm, T0)
    s, t, n = tens(dt, src, tgt, nrm)
    T0t = torch.tensor(T0, dtype=dt)
    N = int(rng.integers(2, 9))
    if rng.random() < .12:
        N = int(rng.integers(9, 36))          # a long run, mostly one that starts with a heavy damping
        if rng.random() < .8:
            damp = float(10 ** rng.uniform(0, 2) * 2 ** rng.uniform(0, N))
    Ts = [T0]
    idxs = [None]
    for k in range(1, N + 1):
        T, idx = point_to_plane_ICP(s, t, n, T0t, k, damp, thr)
        Ts.append(T.double().numpy()); idxs.append(idx.reshape(-1).numpy())
        check_rigid(ctx, T, dt, "rigid", "%s after %d iterations" % (scene, k))
    ctx.eq("initial-transform-unchanged", T0t, T0)
    f32 = dt == torch.float32
    lins = [M.Lin(M.apply(T, src), tgt, nrm, thr, 2e-5 if f32 else 2e-6) for T in Ts]
    sc = max(1.0, np.abs(M.apply(T0, src)).max(), np.abs(tgt).max())
    acc = rej = 0
    base, at = damp, 0          # the damping known to have been used at iteration at + 1
    for k in range(N):
        a, c = lins[k], lins[k + 1]
        if a.ambiguous or c.ambiguous:
            ctx.count("ambiguous-pairs-skipped")
            continue
        noise = (1e-4 if f32 else 1e-9) * (a.err + 1e-6 * sc * sc) + (1e-9 if f32 else 1e-18)
        same = np.abs(Ts[k] - Ts[k + 1]).max() == 0
        ctx.ok("never-worse", c.err <= a.err + noise, lambda: "%s iteration %d: error rose from %.9g to %.9g" % (scene, k + 1, a.err, c.err))
        if same:
            rej += 1
            # a refused step must be one that would not have helped: halved or doubled any number of times since it was last seen,
            # no damping excuses standing still when all of them clearly reduce the error
            if k and a.err > 1e-6 * sc * sc and len(a.b) > 6:
                gain = np.inf
                for j in range(at - k, k - at + 1):
                    cand, e0, e1, amb, cond = M.lm_step(src, tgt, nrm, Ts[k], base * 2.0 ** j, thr)
                    gain = min(gain, -1 if amb or not cond < (1e3 if f32 else 1e8) else (e0 - e1) / e0)
                    if gain < (1e-3 if f32 else 1e-6):
                        break
                ctx.ok("helpful-step-taken", gain < (1e-3 if f32 else 1e-6), lambda: "%s iteration %d of %d: no step taken, although every damping between %g and %g reduces the error by at least %.3g of it" % (
                    scene, k + 1, N, base * 2.0 ** (at - k), base * 2.0 ** (k - at), gain))
                ctx.count("refusals-judged")
            continue
        acc += 1
        # an accepted step is a damped least-squares step from the previous estimate
        D = Ts[k + 1] @ np.linalg.inv(Ts[k])
        sv = np.linalg.svd(a.A)[1]
        xi0 = M.logm(D)
        th = np.linalg.norm(xi0[3:])
        if f32 or np.linalg.norm(xi0) < 1e-7 or sv.min() < 0.03 * sv.max() or len(sv) < 6 or abs(th - np.pi) < .05:
            continue          # converged (step at rounding level), or the logarithm / system is ill-conditioned
        best = None
        for m in range(-3, 4):        # the logarithm is only known up to full turns
            xi = xi0 if m == 0 or th < 1e-3 else M.logm(D, xi0[3:] / th * (th + 2 * np.pi * m))
            g = a.A.T @ a.b - a.A.T @ (a.A @ xi)
            lam = g @ xi / (xi @ xi)
            tol = 1e-6 * (np.linalg.norm(a.A.T @ a.b) + np.linalg.norm(a.A, 2) ** 2 * (np.linalg.norm(xi) + 1e-7 * sc)) + 1e-12
            q = max(np.linalg.norm(g - lam * xi) / tol, -lam * np.linalg.norm(xi) / tol)
            if best is None or q < best[0]:
                best = (q, xi, lam)
        ctx.ok("accepted-step-is-damped-least-squares", best[0] <= 1,
               lambda: "%s iteration %d: step %s does not solve the damped normal equations for any damping (%.3g times the tolerance, lambda %.3g)" % (scene, k + 1, best[1], best[0], best[2]))
        ctx.count("accepted-steps-analysed")
        base, at = max(float(best[2]), 0.0), k
    ctx.count("steps-accepted", acc)
    ctx.count("steps-rejected", rej)
    # the first step uses exactly the configured damping
    cand, e0, e1, amb, cond = M.lm_step(src, tgt, nrm, T0, damp, thr)
    if not amb and cond < (1e3 if f32 else 1e8) and abs(e1 - e0) > (1e-3 if f32 else 1e-7) * (e0 + 1e-9):
        want = cand if e1 < e0 else T0
        ctx.close("first-step", Ts[1], want, 0, (2e-6 if f32 else 1e-14) * cond * 100 * sc * sc + 1e-9,
                  "%s damp %g thr %s: error %.6g -> %.6g, the step must be %s" % (scene, damp, thr, e0, e1, "taken" if e1 < e0 else "rejected"))
        ctx.count("first-step-" + ("accepted" if e1 < e0 else "rejected"))
    # reported indices: nearest neighbours at the last linearisation (or at the result)
    if not lins[N - 1].ambiguous and not lins[N].ambiguous:
        ctx.ok("reported-indices", np.array_equal(idxs[N], lins[N - 1].idx) or np.array_equal(idxs[N], lins[N].idx), "indices are not the nearest neighbours of the kept points")
    ctx.set(scene=str(scene), thr=thr, damp=damp, iters=N, dtype=str(dt), accepted=acc, rejected=rej)
    ctx.state(str(scene), thr is None, damp, N, str(dt), acc, rej)


def recover(ctx):
    from gradslam.odometry.icputils import point_to_plane_ICP
    rng = ctx.rng
    dt = gen.dt(rng)
    src, tgt, nrm, true, kind = M.overlapping_pair(rng)
    T0 = np.eye(4)
    init = rng.choice(["none", "identity", "given"])
    if init == "given":
        T0 = gen.rigid(rng, max_t=1)          # a good initial estimate of a large motion
        src = M.apply(np.linalg.inv(T0), src)
        true = true @ T0
    thr = None if rng.random() < .6 else float(rng.uniform(.2, .5))
    src, tgt, nrm = cast(dt, src, tgt, nrm)
    s, t, n = tens(dt, src, tgt, nrm)
    if thr is not None and rng.random() < .6:
        # source points with no counterpart, all beyond the threshold, must not disturb the result
        extra = M.apply(np.linalg.inv(true), rng.uniform(-1, 1, (6, 3)) + np.array([8.0, 8, 8]))
        s = torch.cat([s, torch.tensor(extra, dtype=dt)[None]], 1)
        ctx.count("outliers-filtered-cases")
    kw = {} if init == "none" else {"initial_transform": torch.tensor(T0, dtype=dt)}
    if thr is not None:
        kw["dist_thresh"] = thr
    T, idx = point_to_plane_ICP(s, t, n, numiters=int(rng.choice([20, 25, 30])), **kw)
    check_rigid(ctx, T, dt)
    ctx.close("recovers-true-motion", T, true, 0, 2e-3 if dt == torch.float32 else 1e-5, "%s cloud of %d, init %s, thr %s" % (kind, len(tgt), init, thr))
    ctx.set(kind=kind, init=str(init), thr=thr, n=len(tgt), dtype=str(dt))
    ctx.state(kind, str(init), thr is None, str(dt), len(tgt))


def provider(ctx):
    from gradslam.odometry.icp import ICPOdometryProvider
    from gradslam.odometry.icputils import point_to_plane_ICP
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = gen.dt(rng)
    B = int(rng.integers(1, 4))
    pairs = [M.overlapping_pair(rng) for _ in range(B)]
    if rng.random() < .3:
        pairs = [(M.random_cloud(rng, int(rng.integers(6, 20)))[0],) + M.random_cloud(rng, int(rng.integers(6, 20))) + (None, "random") for _ in range(B)]
    maps = Pointclouds([torch.tensor(p[1], dtype=dt) for p in pairs], [torch.tensor(p[2], dtype=dt) for p in pairs])
    frames = Pointclouds([torch.tensor(p[0], dtype=dt) for p in pairs], [torch.tensor(p[0], dtype=dt) for p in pairs] if rng.random() < .3 else None)
    numiters = int(rng.integers(1, 13)); damp = float(10 ** rng.uniform(-8, 1)); thr = None if rng.random() < .5 else float(rng.uniform(.2, .8))
    if rng.random() < .3:
        maps.points_padded, frames.points_padded
    prov = ICPOdometryProvider(numiters, damp, thr)
    before = [x.clone() for x in maps.points_list + maps.normals_list + frames.points_list]
    T = prov.provide(maps, frames)
    if not ctx.ok("provider-shape", tuple(T.shape) == (B, 1, 4, 4), "%s" % (T.shape,)):
        return
    for b in range(B):
        own, _ = point_to_plane_ICP(*tens(dt, pairs[b][0], pairs[b][1], pairs[b][2]), torch.eye(4, dtype=dt), numiters, damp, thr)
        ctx.close("provider-per-element", T[b, 0], own, 0, 1e-6 if dt == torch.float32 else 1e-10, "element %d of %d (%s)" % (b, B, pairs[b][4]))
        if pairs[b][3] is not None and damp < 1e-3 and numiters >= 10 and (thr is None or thr > .2):
            ctx.close("recovers-true-motion", T[b, 0], pairs[b][3], 0, 5e-3, "provider, element %d" % b)
    ctx.ok("provider-operands-unchanged", all(torch.equal(x, y) for x, y in zip(before, maps.points_list + maps.normals_list + frames.points_list)), "inputs changed")
    ctx.raises("provider-rejects", (ValueError,), lambda: prov.provide(Pointclouds([torch.rand(4, 3)]), Pointclouds([torch.rand(4, 3)])), "map without normals")
    ctx.raises("provider-rejects", (ValueError,), lambda: prov.provide(maps, Pointclouds([torch.rand(4, 3)] * (B + 1))), "batch mismatch")
    ctx.raises("provider-rejects", (TypeError,), lambda: prov.provide(maps, "frames"), "type")
    ctx.set(B=B, numiters=numiters, damp=damp, thr=thr, dtype=str(dt))
    ctx.state(B, numiters, thr is None, str(dt), tuple(p[4] for p in pairs))


def edges(ctx):
    """nothing to align, nothing within reach, already aligned"""
    from gradslam.odometry.icputils import point_to_plane_ICP
    rng = ctx.rng
    dt = gen.dt(rng)
    kind = rng.choice(["no-source", "no-target", "out-of-reach", "aligned", "none-is-identity"])
    tgt, nrm = M.random_cloud(rng, int(rng.integers(6, 30)))
    src = tgt.copy()
    T0 = gen.rigid(rng)
    thr = None if rng.random() < .5 else .3
    if kind == "no-source":
        src = src[:0]
    if kind == "no-target":
        tgt, nrm = tgt[:0], nrm[:0]
    if kind == "out-of-reach":
        src = src + 50
        thr = .3
    src0 = M.apply(np.linalg.inv(T0), src)
    s, t, n = tens(dt, src0, tgt, nrm)
    if kind == "none-is-identity":
        a, i = point_to_plane_ICP(s, t, n, None, 4, 1e-4, thr)
        b, j = point_to_plane_ICP(s, t, n, torch.eye(4, dtype=dt), 4, 1e-4, thr)
        ctx.eq("no-initial-is-identity", a, b)
        ctx.eq("no-initial-is-identity", i, j)
    else:
        T, idx = point_to_plane_ICP(s, t, n, torch.tensor(T0, dtype=dt), int(rng.integers(1, 6)), float(10 ** rng.uniform(-6, 0)), thr)
        ctx.close("nothing-to-do-keeps-estimate", T, T0, 0, 1e-4 if dt == torch.float32 else 1e-7, str(kind))
    ctx.set(kind=str(kind), dtype=str(dt))
    ctx.state(str(kind), str(dt), thr is None, len(src))


CHECK = Check("C09", [
    Family("linear", linear, 500, 10000),
    Family("solve", solve, 400, 8000),
    Family("steps", steps, 350, 8000),
    Family("recover", recover, 120, 3000),
    Family("provider", provider, 100, 2000),
    Family("edges", edges, 120, 1500),
], require=["nearest-neighbour", "threshold-filter", "point-to-plane-equations", "damped-normal-equations", "never-worse", "first-step-accepted", "first-step-rejected",
            "accepted-steps-analysed", "steps-rejected", "recovers-true-motion", "pairs-filtered", "provider-per-element", "no-initial-is-identity", "nothing-to-do-keeps-estimate"],
    rule="case = random clouds/parameters; distinct = (scene, threshold use, damping, iterations, dtype, number of accepted and rejected steps)",
    assumptions=["nearest-neighbour search and pairing run in single precision: comparisons are skipped when two candidate pairs are within rounding of each other",
                 "recovery is claimed for displacements well below the point spacing"])
