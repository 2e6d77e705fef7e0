"""C14: complete SLAM runs."""
import numpy as np
import torch

from checks.c12 import frames_same, map_same, quiet, snap_frames, snap_map
from vlib import gen, icpmodel as IM, mapmodel as MM, scene
from vlib.core import Check, Family


def make(rng, odom=None, **kw):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    odom = odom or str(rng.choice(["gt", "icp", "gradicp"]))
    if rng.random() < .5:
        return ICPSLAM(odom=odom, **kw), "ICPSLAM", odom
    return PointFusion(odom=odom, dist_th=float(rng.choice([.05, .1])), angle_th=float(rng.choice([20, 40])), **kw), "PointFusion", odom


def maps_equal(ctx, mon, a, b, tol, msg=""):
    la = [a.points_list, a.normals_list, a.colors_list, a.features_list]
    lb = [b.points_list, b.normals_list, b.colors_list, b.features_list]
    for nm, x, y in zip(("points", "normals", "colours", "confidences"), la, lb):
        if not ctx.ok(mon, (x is None) == (y is None), "%s: %s present in one map only" % (msg, nm)):
            return
        for k, (p, q) in enumerate(zip(x or [], y or [])):
            ctx.close(mon, p, q, tol, tol, "%s: %s of element %d" % (msg, nm, k))


def poor(rng, dt, B, L, tracking, size=1.0, grow=1):
    """rendered sequences (tracking; size: metres per unit, grow: larger pictures) or arbitrary frames (ground truth)"""
    if tracking:
        h, w = int(rng.integers(7, 15) * grow), int(rng.integers(7, 15) * grow)
        first = None if rng.random() < .5 else gen.rigid(rng, max_t=1)
        r = scene.sequence(rng, B, L, h, w, dt, step_t=.02, step_r=.02, first=first, missing=float(rng.choice([0, 0, .1])))
        if size != 1:
            r.depth, r.poses = r.depth * size, r.poses.copy()
            r.poses[..., :3, 3] *= size
        return r
    return MM.surface_rgbd(rng, B=B, L=L, dtype=dt, wide=.15)


def groundtruth(ctx):
    """trajectory = given poses, map = frames mapped at those poses one by one"""
    from gradslam.slam import fusionutils as F
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = gen.dt(rng)
    B, L = gen.count(rng, 1, 4, 5, 12), gen.count(rng, 1, 6, 7, 20, .06)
    r = poor(rng, dt, B, L, rng.random() < .4)
    slam, name, odom = make(rng, "gt")
    im = r.build(bool(rng.random() < .4))
    fs = snap_frames(im)
    pc, P = slam(im)
    frames_same(ctx, im, fs)
    ctx.close("gt-trajectory", P, r.poses, 0, 0 if dt == torch.float32 else 1e-6 * max(1.0, np.abs(r.poses).max()), "%s B=%d L=%d" % (name, B, L))
    ref = Pointclouds()
    for s in range(L):
        f = r.sub(s=s).build()
        if name == "ICPSLAM":
            F.update_map_aggregate(ref, f, inplace=True)
        else:
            F.update_map_fusion(ref, f, slam.dist_th, slam.dot_th, slam.sigma, inplace=True)
    if ref.has_points or pc.has_points:
        maps_equal(ctx, "gt-map", pc, ref, 1e-5, "%s B=%d L=%d" % (name, B, L))
    # size never exceeds the number of valid pixels; equal for aggregation
    nv = (r.depth > 0).sum((1, 2, 3))
    if pc.has_points:
        n = [len(p) for p in pc.points_list]
        ctx.ok("map-size", all(a == b if name == "ICPSLAM" else a <= b for a, b in zip(n, nv)), "%s: %s points from %s valid pixels" % (name, n, list(nv)))
    pc2, P2 = slam(im)
    maps_equal(ctx, "run-twice", pc2, pc, 0, name) if pc.has_points else None
    ctx.eq("run-twice", P2, P)
    ctx.set(name=name, B=B, L=L, dtype=str(dt))
    ctx.state(name, B, L, str(dt), im.channels_first)


class Recorder:
    """stands in for the odometry provider of a SLAM object and notes every estimate"""

    def __init__(self, inner):
        self.inner, self.calls = inner, []

    def provide(self, maps, frames):
        T = self.inner.provide(maps, frames)
        self.calls.append((maps.clone(), frames.clone(), T.detach().clone()))
        return T

    def __getattr__(self, k):
        return getattr(self.inner, k)


def tracking(ctx):
    """step by step: first pose given or identity, every later pose = estimate applied to the previous pose"""
    from gradslam.slam.fusionutils import find_active_map_points
    from gradslam.odometry import icputils as IU
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = torch.float64 if rng.random() < .7 else torch.float32
    B, L = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    if rng.random() < .15:
        B, L = 1, gen.count(rng, 5, 9, 10, 16, .2)
    ds = int(rng.choice([1, 2, 3])) if rng.random() < .9 else int(rng.integers(4, 8))
    size = float(10 ** rng.uniform(-1, 2)) if dt == torch.float64 and rng.random() < .2 else 1.0
    big = max(1.0, size)
    r = poor(rng, dt, B, L, True, size, 1 if ds < 4 else 3)
    nop = rng.random() < .4
    iters = int(rng.integers(1, 7))
    damp = float(rng.choice([1e-8, 1e-4, 1e-2]))
    thr = None if rng.random() < .6 else float(rng.uniform(.2, .6) * size)
    kw = dict(dsratio=ds, numiters=iters, damp=damp, dist_thresh=thr)
    gkw = {}
    odom = str(rng.choice(["icp", "gradicp"]))
    if odom == "gradicp" and rng.random() < .6:
        gkw = dict(lambda_max=float(rng.uniform(1, 4)), B=float(rng.uniform(.2, 3)), B2=float(rng.uniform(.2, 3)), nu=float(rng.uniform(1, 200)))
        kw.update(gkw)
    slam, name, odom = make(rng, odom, **kw)
    cf = bool(rng.random() < .4)
    if nop:
        r.poses = None
    elif rng.random() < .3:
        r.poses[:, 1:] = gen.rigids(rng, (B, L - 1))      # later poses must not be used when tracking
    im = r.build(cf)
    fs = snap_frames(im)
    tag = "%s/%s B=%d L=%d ds=%d" % (name, odom, B, L, ds)
    rec = Recorder(slam.odomprov)
    slam.odomprov = rec
    pc, P = slam(im)
    slam.odomprov = rec.inner
    frames_same(ctx, im, fs)
    if not ctx.ok("pose-shape", tuple(P.shape) == (B, L, 4, 4), "%s" % (P.shape,)):
        return
    first = np.broadcast_to(np.eye(4), (B, 4, 4)) if nop else r.poses[:, 0]
    ctx.close("first-pose", P[:, 0], first, 0, 0 if dt == torch.float32 else 1e-6 * big, tag)
    ctx.ok("one-estimate-per-step", len(rec.calls) == L - 1, "%s: %d odometry estimates for %d frames" % (tag, len(rec.calls), L))
    Pn = P.double().numpy()
    for s, (m, f, T) in enumerate(rec.calls, 1):
        ctx.close("pose-is-estimate-applied-to-previous", Pn[:, s], T.double().numpy()[:, 0] @ Pn[:, s - 1], 0, 1e-5 if dt == torch.float32 else 1e-6 * big, "%s frame %d" % (tag, s))
    ctx.count("steps-tracked", len(rec.calls))
    # the same, one step at a time, with every input guarded
    mp = Pointclouds()
    prev = None
    guard_maps = []
    for s in range(L):
        live = r.sub(s=s).build(bool(rng.random() < .4))
        if s == 0 and nop:
            live.poses = torch.eye(4, dtype=dt).repeat(B, 1, 1, 1)
        inplace = bool(rng.random() < .5)
        ls, ms, ps = snap_frames(live), snap_map(mp), None if prev is None else snap_frames(prev)
        # independent estimate from the documented inputs: live points at the previous pose vs visible map points
        want = None
        if prev is not None:
            look = r.sub(s=s).build()
            look.poses = prev.poses
            GV = look.global_vertex_map.double()
            val = look.valid_depth_mask[..., 0]
            act = find_active_map_points(mp, prev).numpy()
            est = []
            for b in range(B):
                src = look.global_vertex_map[b, 0, ::ds, ::ds][val[b, 0, ::ds, ::ds]]
                a = act[(act[:, 0] == b) & (act[:, 2] % ds == 0) & (act[:, 3] % ds == 0)][:, 1]
                tgt, nrm = mp.points_list[b][a], mp.normals_list[b][a]
                fn = IU.point_to_plane_ICP if odom == "icp" else IU.point_to_plane_gradICP
                Tb, _ = fn(src[None], tgt[None], nrm[None], torch.eye(4, dtype=dt), iters, damp, thr, **gkw)
                est.append(Tb)
            want = torch.stack(est)[:, None] @ prev.poses
        out, pose = slam.step(mp, live, prev, inplace)
        if want is not None and torch.isfinite(want).all():
            ctx.close("step-pose", pose, want, 0, 2e-4 if dt == torch.float32 else 1e-6 * big, "%s frame %d" % (tag, s))
        if prev is not None:
            frames_same(ctx, prev, ps)
        for g in ("rgb_image", "depth_image", "intrinsics"):
            ctx.ok("live-frame-unchanged", gen.same(getattr(live, g), ls[0][g]), g)
        if inplace:
            ctx.ok("inplace-returns-same-object", out is mp)
            ctx.ok("inplace-live-pose", live.poses is not None and torch.equal(live.poses, pose), "live frame did not get its pose")
        else:
            map_same(ctx, mp, ms)
            frames_same(ctx, live, ls)
            ctx.ok("out-of-place-returns-new-object", out is not mp)
            guard_maps.append((mp, ms))
            live.poses = pose
        if dt == torch.float64:
            ctx.close("stepping-equals-whole-run", pose[:, 0], Pn[:, s], 0, 1e-6 * big, "%s frame %d" % (tag, s))
        mp, prev = out, live
    if dt == torch.float64 and np.isfinite(Pn).all():
        maps_equal(ctx, "stepping-equals-whole-run", mp, pc, 1e-5 * big, tag)
    for m, v in [g for g in guard_maps if g[0] is not mp][-2:]:
        if not any(m is x for x in ()):
            ctx.count("old-maps-checked")
    ctx.set(name=name, odom=odom, B=B, L=L, ds=ds, iters=iters, damp=damp, thr=thr, poses="absent" if nop else "given", dtype=str(dt))
    ctx.state(name, odom, B, L, ds, thr is None, nop, str(dt), cf)


def static(ctx):
    """a camera that does not move"""
    rng = ctx.rng
    dt = gen.dt(rng)
    B, L = int(rng.integers(1, 3)), int(rng.integers(2, 6))
    first = gen.rigid(rng, max_t=1)
    r = scene.sequence(rng, B, 1, int(rng.integers(8, 16)), int(rng.integers(8, 16)), dt, first=first, missing=float(rng.choice([0, .15])))
    r.rgb, r.depth, r.poses = (np.repeat(x, L, 1) for x in (r.rgb, r.depth, r.poses))
    nop = rng.random() < .4
    if nop:
        r.poses = None
    ds = int(rng.choice([1, 2]))
    slam, name, odom = make(rng, str(rng.choice(["icp", "gradicp"])), dsratio=ds, numiters=int(rng.integers(1, 6)), damp=float(rng.choice([1e-8, 1e-3])))
    pc, P = slam(r.build(bool(rng.random() < .4)))
    want = np.broadcast_to(np.eye(4), (B, L, 4, 4)) if nop else r.poses
    ctx.close("static-camera", P, want, 0, 2e-3 if dt == torch.float32 else 2e-5, "%s/%s ds=%d" % (name, odom, ds))
    ctx.set(name=name, odom=odom, B=B, L=L, ds=ds, dtype=str(dt), poses="absent" if nop else "given")
    ctx.state(name, odom, B, L, ds, str(dt), nop)


def moving(ctx):
    """small known motions: the typical error is a small part of the motion"""
    rng = ctx.rng
    B, L = 8, 3
    first = None if rng.random() < .5 else gen.rigid(rng, max_t=1)
    r = scene.sequence(rng, B, L, 24, 28, torch.float64, step_t=.03, step_r=.03, first=first)
    true = r.poses.copy()
    if rng.random() < .5:
        r.poses = None
        true = np.linalg.inv(true[:, :1]) @ true
    elif rng.random() < .5:
        r.poses[:, 1:] = np.eye(4)
    slam, name, odom = make(rng, str(rng.choice(["icp", "gradicp"])), dsratio=1)
    pc, P = slam(r.build())
    P = P.numpy()
    err = np.abs(P[:, -1] - true[:, -1]).max((1, 2))
    mot = np.abs(true[:, -1] - true[:, 0]).max((1, 2))
    ratio = np.sort(err / np.maximum(mot, 1e-3))
    ctx.ok("known-motion-recovered", ratio[B // 2] < .5, "%s/%s: error relative to the motion over %d trajectories: %s" % (name, odom, B, np.round(ratio, 3)))
    for b in range(B):
        for s in range(L):
            R = P[b, s, :3, :3]
            ctx.close("trajectory-rigid", R @ R.T, np.eye(3), 0, 1e-6)
    ctx.set(name=name, odom=odom, ratio=[float(x) for x in np.round(ratio, 3)], first="given" if first is not None else "identity")
    ctx.state(name, odom, r.poses is None, first is None)


def misuse(ctx):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    r = MM.surface_rgbd(rng, L=1)
    im = r.build()
    nop = r.build(); nop._poses = None if hasattr(nop, "_poses") else None
    from gradslam.structures.rgbdimages import RGBDImages
    t = r.tensors()
    nop = RGBDImages(t[0], t[1], t[2])
    C = ICPSLAM if rng.random() < .5 else PointFusion
    ctx.raises("rejected", (ValueError,), lambda: C(odom="orb"), "unknown odometry")
    gt, trk = C(odom="gt"), C(odom=str(rng.choice(["icp", "gradicp"])))
    pc = Pointclouds()
    ctx.raises("rejected", (ValueError,), lambda: gt.step(pc, nop), "no pose for the first frame")
    ctx.raises("rejected", (ValueError,), lambda: trk.step(pc, nop, None), "no pose and no previous frame")
    ctx.raises("rejected", (ValueError,), lambda: trk.step(pc, im, nop), "previous frame without poses")
    ctx.raises("rejected", (TypeError,), lambda: gt.step(pc, "frame"), "live frame type")
    ctx.raises("rejected", (TypeError,), lambda: gt.step("map", im), "map type")
    ctx.raises("rejected", (TypeError,), lambda: trk.step(pc, im, "prev"), "previous frame type")
    ctx.raises("rejected", (TypeError,), lambda: trk("frames"), "frames type")
    ctx.ok("state-after-rejection", not pc.has_points and torch.equal(im.poses.double(), torch.tensor(r.poses)) and nop.poses is None, "an object changed although the call was rejected")
    # with ground truth odometry a previous frame is ignored
    other = MM.surface_rgbd(rng, L=1, B=len(im), h=r.shape[2], w=r.shape[3]).build()
    a, P = gt.step(pc, im, other)
    ctx.close("gt-ignores-previous", P, r.poses, 0, 1e-6)
    # tracking without a previous frame uses the frame's own pose
    b, P = trk.step(a, im, None)
    ctx.close("no-previous-uses-own-pose", P, r.poses, 0, 1e-6)
    ctx.state(C.__name__, len(im))


CHECK = Check("C14", [
    Family("groundtruth", quiet(groundtruth), 150, 3000),
    Family("tracking", quiet(tracking), 150, 3000),
    Family("static", quiet(static), 80, 1200),
    Family("moving", quiet(moving), 12, 60),
    Family("misuse", quiet(misuse), 30, 300),
], require=["gt-trajectory", "gt-map", "first-pose", "pose-is-estimate-applied-to-previous", "step-pose", "stepping-equals-whole-run", "static-camera", "known-motion-recovered",
            "map-unchanged-when-not-inplace", "frames-unchanged", "run-twice", "inplace-live-pose"],
    rule="case = one sequence processed by one SLAM configuration, whole and step by step; distinct = (system, odometry, batch, length, down-sampling, threshold use, poses given or not, dtype, layout)",
    assumptions=["recovery from real (re-rendered) motion is judged on the median over 8 trajectories per case: single trajectories can be badly conditioned",
                 "whole-run versus stepwise equality is judged in double precision"])
