"""C13: aggregation mapping."""
import numpy as np
import torch

from checks.c12 import TOL, frames_same, map_same, quiet, snap_frames, snap_map
from vlib import gen, mapmodel as MM
from vlib.core import Check, Family


def compare(ctx, pc, want, dt, msg, masks):
    lists = (pc.points_list, pc.normals_list, pc.colors_list)
    B = len(want)
    if not ctx.ok("batch-size", lists[0] is not None and len(lists[0]) == B, "%s: %s elements" % (msg, None if lists[0] is None else len(lists[0]))):
        return False
    if not ctx.ok("attributes-present", all(l is not None for l in lists), "%s: normals or colours are missing" % msg):
        return False
    good = True
    for b, w in enumerate(want):
        sc = max(1.0, np.abs(w.P).max() if len(w) else 1)
        if not ctx.ok("map-size-is-sum-of-valid-pixels", len(lists[0][b]) == len(w), lambda: "%s element %d: %d points, expected %d" % (msg, b, len(lists[0][b]), len(w))):
            good = False
            continue
        good &= ctx.close("positions", lists[0][b], w.P, 0, TOL[dt] * sc * 3, "%s element %d" % (msg, b))
        good &= ctx.close("colours", lists[2][b], w.C, 1e-6, 0, "%s element %d" % (msg, b))
        m = masks[b]
        good &= ctx.close("normals", lists[1][b].double().numpy()[m], w.N[m], 0, 5e-3 if dt == torch.float32 else 2e-3, "%s element %d" % (msg, b))
    return good


def function(ctx):
    """one update of an arbitrary map"""
    from gradslam.slam.fusionutils import update_map_aggregate
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = gen.dt(rng)
    r = MM.surface_rgbd(rng, dtype=dt, big=.03, wide=.12)
    frs = MM.frames_of(r)
    kind = rng.choice(["none", "ragged", "ragged", "equal"])
    n = int(rng.integers(1, 15))
    els = [MM.map_for_frame(rng, f, 0 if kind == "none" else n if kind == "equal" else None, big=.03) for f in frs]
    if kind == "none":
        pc = Pointclouds()
    else:
        pc = MM.build_map(els, dt, padded=rng.random() < .5, features=False)
        if rng.random() < .5:
            pc.points_padded, pc.colors_padded
    im = r.build(bool(rng.random() < .4))
    inplace = [None, True, False][int(rng.integers(0, 3))]
    ms, fs = snap_map(pc), snap_frames(im)
    out = update_map_aggregate(pc, im) if inplace is None else update_map_aggregate(pc, im, inplace)
    frames_same(ctx, im, fs)
    if inplace:
        ctx.ok("inplace-returns-same-object", out is pc)
    else:
        ctx.ok("out-of-place-returns-new-object", out is not pc)
        map_same(ctx, pc, ms)
        if kind != "none":
            ptr = gen.storage_ptrs(pc.points_list, pc.normals_list, pc.colors_list)
            ctx.ok("out-of-place-shares-nothing", not (ptr & gen.storage_ptrs(out.points_list, out.normals_list, out.colors_list)), "returned map shares memory with its argument")
    want = [MM.aggregate(e, f) for e, f in zip(els, frs)]
    masks = [np.concatenate([np.ones(len(e), bool), f.normal_ok[f.valid]]) for e, f in zip(els, frs)]
    if all(len(w) == 0 for w in want):
        ctx.count("nothing-anywhere")
        ctx.ok("map-size-is-sum-of-valid-pixels", not out.has_points or int(sum(len(p) for p in out.points_list)) == 0)
    else:
        compare(ctx, out, want, dt, "inplace %s" % inplace, masks)
    # previous points are kept bit for bit
    if kind != "none":
        for b, e in enumerate(els):
            ctx.ok("previous-points-first", torch.equal(out.points_list[b][:len(e)], ms[0][b]), "old points of element %d changed or moved" % b)
    ctx.count("points-appended", int(sum(f.valid.sum() for f in frs)))
    ctx.count("frames-with-nothing-valid", sum(not f.valid.any() for f in frs))
    ctx.set(kind=str(kind), inplace=inplace, dtype=str(dt), sizes=[len(e) for e in els])
    ctx.state(str(kind), inplace, str(dt), im.channels_first, len(els), tuple(int(f.valid.sum()) == 0 for f in frs))


def history(ctx):
    from gradslam.slam.fusionutils import update_map_aggregate
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = gen.dt(rng)
    L, B = gen.count(rng, 1, 7, 8, 20, .05), gen.count(rng, 1, 4, 5, 12, .03)
    r = MM.surface_rgbd(rng, B=B, L=L, dtype=dt, wide=.1)
    if rng.random() < .3:
        for _ in range(2):
            r.depth[int(rng.integers(0, B)), int(rng.integers(0, L))] = 0
    if rng.random() < .1:
        r.depth[:, 0] = 0
    slam = ICPSLAM(odom="gt")
    pc = Pointclouds()
    els = [MM.MapEl(*(np.zeros((0, 3)) for _ in range(3)), np.zeros((0, 1))) for _ in range(B)]
    masks = [np.zeros(0, bool) for _ in range(B)]
    mode = rng.choice(["function", "step", "map", "mixed"])
    kept = []        # maps that must stay as they were
    for s in range(L):
        frs = MM.frames_of(r, s)
        im = r.sub(s=s).build(bool(rng.random() < .4))
        inplace = bool(rng.random() < .5)
        m = mode if mode != "mixed" else rng.choice(["function", "step", "map"])
        fs, ms = snap_frames(im), snap_map(pc)
        if m == "function":
            out = update_map_aggregate(pc, im, inplace=inplace)
        elif m == "step":
            out, P = slam.step(pc, im, None, inplace)
            ctx.close("gt-pose", P, r.poses[:, s:s + 1], 0, 1e-6)
        else:
            out = slam._map(pc, im, inplace)
        frames_same(ctx, im, fs)
        if inplace:
            ctx.ok("inplace-returns-same-object", out is pc)
            kept = [(k, v) for k, v in kept if k is not pc]
        else:
            ctx.ok("out-of-place-returns-new-object", out is not pc)
            map_same(ctx, pc, ms)
            kept.append((pc, ms))
        els = [MM.aggregate(e, f) for e, f in zip(els, frs)]
        masks = [np.concatenate([k, f.normal_ok[f.valid]]) for k, f in zip(masks, frs)]
        if rng.random() < .4 and out.has_points:
            out.points_padded, out.normals_padded, out.num_points_per_pointcloud
        if any(len(e) for e in els) and not compare(ctx, out, els, dt, "after frame %d of %d (%s)" % (s, L, mode), masks):
            return
        pc = out
    for k, v in kept:
        map_same(ctx, k, v, "older-maps-stay-unchanged")
    ctx.count("frames-aggregated", L * B)
    if rng.random() < .4:
        # the whole run at once
        out, P = slam(r.build(bool(rng.random() < .4)))
        if any(len(e) for e in els):
            compare(ctx, out, els, dt, "whole sequence", masks)
        ctx.close("gt-pose", P, r.poses, 0, 1e-6)
    ctx.set(L=L, B=B, mode=str(mode), dtype=str(dt), final=[len(e) for e in els])
    ctx.state(L, B, str(mode), str(dt), tuple(min(len(e), 20) for e in els))


CHECK = Check("C13", [
    Family("function", quiet(function), 500, 10000),
    Family("history", quiet(history), 400, 8000),
], require=["positions", "normals", "colours", "map-size-is-sum-of-valid-pixels", "previous-points-first", "frames-unchanged", "map-unchanged-when-not-inplace", "inplace-returns-same-object",
            "older-maps-stay-unchanged", "frames-with-nothing-valid", "points-appended"],
    rule="case = one update of a random map, or a history of frames aggregated through random entry points; distinct = (sizes, in-place, entry point, dtype, layout)",
    assumptions=["normals of pixels whose neighbouring differences are nearly parallel are not compared"])
