"""C12: point fusion."""
import warnings

import numpy as np
import torch

from vlib import gen, mapmodel as MM
from vlib.core import Check, Family

# the library's intrinsics inverse carries an epsilon of 1e-6, hence no tighter tolerance in double precision
TOL = {torch.float32: 2e-5, torch.float64: 5e-6}


def snap_frames(im):
    return {g: None if getattr(im, g) is None else getattr(im, g).clone() for g in ("rgb_image", "depth_image", "intrinsics", "poses")}, im.channels_first


def frames_same(ctx, im, snap):
    s, cf = snap
    ctx.ok("frames-unchanged", im.channels_first == cf, "layout changed")
    for g, t in s.items():
        u = getattr(im, g)
        ctx.ok("frames-unchanged", (t is None and u is None) or (t is not None and u is not None and gen.same(t, u)), "%s changed" % g)


def snap_map(pc):
    return [[x.clone() for x in (l or [])] for l in (pc.points_list, pc.normals_list, pc.colors_list, pc.features_list)]


def map_same(ctx, pc, s, mon="map-unchanged-when-not-inplace"):
    for name, a, l in zip(("points", "normals", "colors", "features"), s, (pc.points_list, pc.normals_list, pc.colors_list, pc.features_list)):
        l = l or []
        ctx.ok(mon, len(a) == len(l) and all(x.shape == y.shape and torch.equal(x, y) for x, y in zip(a, l)), "%s of the map passed in changed" % name)


def compare(ctx, got, want, frs, dt, msg, nok=None, sigma=1.0):
    """got: list of MapEl read from the real map; want: model"""
    if not ctx.ok("batch-size", len(got) == len(want), msg):
        return False
    good = True
    for b, (g, w) in enumerate(zip(got, want)):
        sc = max(1.0, np.abs(w.P).max() if len(w) else 1)
        reach = (frs[b].V ** 2).sum(-1).max() / sigma ** 2
        slop = 1 + .2 * min(reach, 40)          # rounding of the exponent becomes a relative error of the weights
        if not ctx.ok("point-count", len(g) == len(w), lambda: "%s element %d: %d points, expected %d" % (msg, b, len(g), len(w))):
            good = False
            continue
        if g.N is None or g.C is None or g.c is None:
            ctx.ok("attributes-present", len(w) == 0 or False, "%s: normals/colours/confidences missing" % msg)
            good = False
            continue
        good &= ctx.close("positions", g.P, w.P, 0, TOL[dt] * sc * 3 * slop, "%s element %d" % (msg, b))
        good &= ctx.close("colours", g.C, w.C, 0, TOL[dt] * max(1.0, np.abs(w.C).max() if len(w) else 1) * 2 * slop, "%s element %d" % (msg, b))
        good &= ctx.close("confidences", g.c, w.c, TOL[dt] * 5 * (1 + reach), 1e-9, "%s element %d" % (msg, b))
        m = np.ones(len(w), bool) if nok is None else nok[b]
        good &= ctx.close("normals", g.N[m], w.N[m], 0, 5e-3 if dt == torch.float32 else 2e-3, "%s element %d" % (msg, b))
    return good


def normal_mask(els, frs, table_per_b, news):
    """which fused/appended normals are well conditioned"""
    out = []
    for b, (e, f) in enumerate(zip(els, frs)):
        m = np.ones(len(e), bool)
        for n, r, c in table_per_b[b]:
            m[n] &= f.normal_ok[r, c]
        out.append(np.concatenate([m, f.normal_ok[news[b]]]))
    return out


def one_to_one(rng, els, frs, p):
    rows = [[] for _ in els]
    for b, (e, f) in enumerate(zip(els, frs)):
        px = [(r, c) for r in range(f.h) for c in range(f.w) if f.valid[r, c]]
        rng.shuffle(px)
        pts = list(rng.permutation(len(e)))
        k = int(min(len(px), len(pts)) * p)
        rows[b] = [(int(n), int(r), int(c)) for n, (r, c) in zip(pts[:k], px[:k])]
    flat = [(b,) + (n, r, c) for b, l in enumerate(rows) for n, r, c in l]
    if rng.random() < .5:
        flat = [flat[i] for i in rng.permutation(len(flat))]
    return rows, torch.tensor(flat, dtype=torch.int64).reshape(-1, 4)


def sigma_of(rng, dt):
    s = float(10 ** (rng.uniform(-.7, .8) if rng.random() < .8 else rng.uniform(-2, 2.5)))
    k = rng.random()
    if k < .2:
        return int(rng.integers(1, 4))
    if k < .4:
        return torch.tensor(s, dtype=dt)
    return s


def fuse(ctx):
    from gradslam.slam.fusionutils import fuse_with_map
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = gen.dt(rng, .5)
    r = MM.surface_rgbd(rng, dtype=dt, big=.03, wide=.12)
    frs = MM.frames_of(r)
    empty = rng.random() < .08
    els = [MM.map_for_frame(rng, f, 0 if empty else None, big=.03) for f in frs]
    if rng.random() < .25 and not empty:
        n = int(rng.integers(1, 20))
        els = [MM.map_for_frame(rng, f, n) for f in frs]
    pc = Pointclouds() if empty else MM.build_map(els, dt, padded=rng.random() < .5)
    if rng.random() < .5 and not empty:
        pc.points_padded, pc.features_padded
    im = r.build(bool(rng.random() < .4))
    rows, table = one_to_one(rng, els, frs, float(rng.choice([0, .3, .8, 1])))
    sg = sigma_of(rng, dt)
    inplace = bool(rng.random() < .5)
    ms, fs, ts = snap_map(pc), snap_frames(im), table.clone()
    out = fuse_with_map(pc, im, table, sg, inplace) if rng.random() < .5 else fuse_with_map(pc, im, table, sigma=sg, inplace=inplace)
    frames_same(ctx, im, fs)
    ctx.ok("table-unchanged", torch.equal(ts, table), "association table changed")
    if inplace:
        ctx.ok("inplace-returns-same-object", out is pc, "in-place fusion returned another object")
    else:
        ctx.ok("out-of-place-returns-new-object", out is not pc, "out-of-place fusion returned its argument")
        map_same(ctx, pc, ms)
    want, news = zip(*[MM.fuse(e, f, rows[b], float(sg)) for b, (e, f) in enumerate(zip(els, frs))])
    compare(ctx, MM.read_map(out), want, frs, dt, "sigma %s inplace %s" % (float(sg), inplace), normal_mask(els, frs, rows, news), float(sg))
    # conservation: nothing but matched pixels is absorbed
    got = MM.read_map(out)
    for b in range(len(els)):
        if got[b].c is not None:
            A = MM.alpha(frs[b].V, float(sg))
            ctx.close("confidence-conserved", got[b].c.sum(), (els[b].c.sum() if len(els[b]) else 0) + A[frs[b].valid].sum(), TOL[dt] * 10 * (1 + (frs[b].V ** 2).sum(-1).max() / float(sg) ** 2), 1e-6, "total confidence of element %d" % b)
    ctx.count("matched", len(table))
    ctx.count("appended", int(sum(n.sum() for n in news)))
    ctx.set(sizes=[len(e) for e in els], matched=len(table), sigma=float(sg), inplace=inplace, dtype=str(dt), channels_first=im.channels_first)
    ctx.state(tuple(min(len(e), 9) for e in els), min(len(table), 9), inplace, str(dt), im.channels_first, empty)


def alpha(ctx):
    from gradslam.slam.fusionutils import get_alpha
    rng = ctx.rng
    dt = gen.dt(rng)
    nd = int(rng.integers(1, 5))
    shape = [int(v) for v in rng.integers(1, 5, nd)]
    dim = int(rng.integers(0, nd))
    shape[dim] = 3
    p = rng.normal(size=shape) * 10 ** rng.uniform(-2, 1.5)
    if rng.random() < .15:
        p[:] = 0
    t = torch.tensor(p, dtype=dt)
    p = t.double().numpy()
    sg = sigma_of(rng, dt)
    d = dim if rng.random() < .5 else dim - nd
    keep = bool(rng.random() < .5)
    eps = None if rng.random() < .6 else float(10 ** rng.uniform(-10, -2))
    a = get_alpha(t, sg, d, keep) if eps is None else get_alpha(t, sg, dim=d, keepdim=keep, eps=eps)
    want = np.clip(np.exp(-(p ** 2).sum(dim, keepdims=keep) / (2 * float(sg) ** 2)), eps or 1e-7, 1.01)
    ctx.close("confidence-is-gaussian", a, want, 2e-5 if dt == torch.float32 else 1e-12, 1e-7 if dt == torch.float32 else 1e-12, "sigma %s dim %d" % (sg, d))
    ctx.ok("confidence-floor", bool((a >= (eps or 1e-7) * (1 - 1e-6)).all()) and bool((a <= 1.0 + 1e-6).all() if not eps or eps < 1 else True), "confidence outside its bounds")
    ctx.set(shape=shape, dim=d, sigma=float(sg), eps=eps)
    ctx.state(tuple(shape), d, keep, eps is None, str(dt))


def rounds(ctx):
    """several frames fused one after another through the public pipeline"""
    from gradslam.slam import fusionutils as F
    from gradslam.slam.pointfusion import PointFusion
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = gen.dt(rng, .5)
    L = gen.count(rng, 2, 6, 7, 16)
    B = gen.count(rng, 1, 4, 5, 12, .02)
    r = MM.surface_rgbd(rng, B=B, L=L, dtype=dt)
    # mostly the same scene from nearby cameras, so that matches are frequent
    same = rng.random() < .75
    if same:
        for s in range(1, L):
            r.depth[:, s] = np.where(r.depth[:, 0] > 0, r.depth[:, 0] * (1 + rng.normal(size=r.depth[:, 0].shape) * .003), r.depth[:, s])
            for b in range(B):
                r.poses[b, s] = r.poses[b, 0] @ gen.rigid(rng, .01, .01)
        if rng.random() < .3:
            b, s = int(rng.integers(0, B)), int(rng.integers(0, L))
            r.depth[b, s] = 0
        if rng.random() < .15:
            r.depth[:, 0] = 0
        for k in ("depth", "poses"):
            setattr(r, k, torch.tensor(getattr(r, k), dtype=dt).double().numpy())
    dist_th, angle, sg = float(rng.choice([.05, .2, .5])), float(rng.choice([20, 45, 80])), float(rng.uniform(.3, 2))
    via = rng.choice(["function", "step", "map"])
    slam = PointFusion(odom="gt", dist_th=dist_th, angle_th=angle, sigma=sg)
    dot_th = float(np.cos(np.radians(angle)))
    pc = Pointclouds()
    matched = 0
    for s in range(L):
        frs = MM.frames_of(r, s)
        im = r.sub(s=s).build(bool(rng.random() < .4))
        els = MM.read_map(pc) if pc.has_points else [MM.MapEl(np.zeros((0, 3)), np.zeros((0, 3)), np.zeros((0, 3)), np.zeros((0, 1))) for _ in range(B)]
        if any(e.c is None for e in els):
            ctx.fail("attributes-present", "map lost its confidences before frame %d" % s)
            return
        tab = F.find_correspondences(pc.clone(), im, dist_th, dot_th).numpy()
        rows = [[(int(n), int(h), int(w)) for bb, n, h, w in tab if bb == b] for b in range(B)]
        inplace = bool(rng.random() < .5)
        ms, fs = snap_map(pc), snap_frames(im)
        if via == "function":
            out = F.update_map_fusion(pc, im, dist_th, dot_th, sg, inplace)
        elif via == "step":
            out, P = slam.step(pc, im, None, inplace)
            ctx.close("gt-pose", P, r.poses[:, s:s + 1], 0, 1e-6)
        else:
            out = slam._map(pc, im, inplace)
        frames_same(ctx, im, fs)
        if inplace:
            ctx.ok("inplace-returns-same-object", out is pc)
        else:
            ctx.ok("out-of-place-returns-new-object", out is not pc)
            map_same(ctx, pc, ms)
        want, news = zip(*[MM.fuse(e, f, rows[b], sg) for b, (e, f) in enumerate(zip(els, frs))])
        matched += len(tab)
        if not compare(ctx, MM.read_map(out), want, frs, dt, "round %d via %s" % (s, via), normal_mask(els, frs, rows, news), sg):
            return
        pc = out
    ctx.count("matched", matched)
    ctx.count("rounds", L)
    ctx.set(B=B, L=L, matched=matched, via=str(via), dist_th=dist_th, angle=angle, dtype=str(dt))
    ctx.state(B, L, min(matched, 10), str(via), str(dt))


def rejected(ctx):
    from gradslam.slam.fusionutils import fuse_with_map
    rng = ctx.rng
    r = MM.surface_rgbd(rng)
    frs = MM.frames_of(r)
    els = [MM.map_for_frame(rng, f, 6) for f in frs]
    im = r.build()
    table = torch.zeros((0, 4), dtype=torch.int64)
    from gradslam.structures.pointclouds import Pointclouds
    P = [torch.tensor(e.P, dtype=torch.float32) for e in els]
    full = dict(points=P, normals=P, colors=P, features=[p[:, :1] for p in P])
    for miss in ("normals", "colors", "features"):
        kw = dict(full); kw.pop(miss)
        pc = Pointclouds(**kw)
        ctx.raises("incomplete-map-rejected", (ValueError,), lambda: fuse_with_map(pc, im, table, .6), "map without " + miss)
    pc = Pointclouds(**full)
    s = snap_map(pc)
    ctx.raises("bad-table-rejected", (TypeError,), lambda: fuse_with_map(pc, im, table.float(), .6))
    ctx.raises("bad-table-rejected", (ValueError,), lambda: fuse_with_map(pc, im, table[:, :2], .6))
    map_same(ctx, pc, s, "map-unchanged-after-rejection")
    ctx.state(len(els))


def quiet(fn):
    def g(ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
    g.__name__ = fn.__name__
    return g


CHECK = Check("C12", [
    Family("fuse", quiet(fuse), 500, 10000),
    Family("alpha", quiet(alpha), 300, 5000),
    Family("rounds", quiet(rounds), 200, 5000),
    Family("rejected", quiet(rejected), 20, 200),
], require=["positions", "normals", "colours", "confidences", "point-count", "map-unchanged-when-not-inplace", "inplace-returns-same-object", "frames-unchanged", "matched", "appended",
            "confidence-conserved", "confidence-is-gaussian", "confidence-floor"],
    rule="case = random map, frame, association and sigma, or a history of fused frames; distinct = (map sizes, matches, in-place, dtype, layout, entry point)",
    assumptions=["map confidences are positive", "normals of pixels whose neighbouring differences are nearly parallel are compared only loosely (ill-conditioned)"])
