"""C15: batch elements never influence each other.

Every workload is a function of a *list of elements*.  It is run on the whole list, on each
element alone, on a permutation and with the other elements replaced by hostile ones, and the
results of an element are compared across those runs.
"""
import warnings

import numpy as np
import torch

from checks.c12 import quiet
from vlib import gen, icpmodel as IM, mapmodel as MM, scene
from vlib.core import Check, Family, Skip


def same(ctx, mon, a, b, rtol, atol, msg):
    """per-element results: dict name -> array / None / int"""
    ok = True
    if not ctx.ok(mon, set(a) == set(b), "%s: %s vs %s" % (msg, sorted(a), sorted(b))):
        return False
    for k in a:
        x, y = a[k], b[k]
        if x is None or y is None:
            # an attribute that exists for the batch need not exist for an element without a single point
            gone = y if x is None else x
            ok &= ctx.ok(mon, gone is None or np.size(gone) == 0, "%s: %s missing in one run" % (msg, k))
            continue
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if not ctx.ok(mon, x.shape == y.shape, "%s: %s has shape %s in the batch, %s otherwise" % (msg, k, x.shape, y.shape)):
            ok = False
            continue
        if x.size == 0:
            continue
        sc = max(1.0, np.nanmax(np.abs(np.where(np.isfinite(y), y, 0))))
        ok &= ctx.close(mon, x, y, rtol, atol * sc, "%s: %s" % (msg, k))
    return ok


def independence(ctx, elems, f, hostile=None, rtol=0.0, atol=1e-9, tag=""):
    rng = ctx.rng
    B = len(elems)
    whole = f(elems)
    if not ctx.ok("one-result-per-element", len(whole) == B, "%s: %d results for %d elements" % (tag, len(whole), B)):
        return
    for b in range(B):
        alone = f([elems[b]])[0]
        same(ctx, "same-as-alone", whole[b], alone, rtol, atol, "%s element %d of %d, batch vs alone" % (tag, b, B))
    perm = [int(x) for x in rng.permutation(B)]
    got = f([elems[p] for p in perm])
    for k, p in enumerate(perm):
        same(ctx, "permutation", got[k], whole[p], rtol, atol, "%s element %d at position %d" % (tag, p, k))
    if rng.random() < .4:      # repeated elements
        rep = [int(x) for x in rng.integers(0, B, B + 1)]
        got = f([elems[p] for p in rep])
        for k, p in enumerate(rep):
            same(ctx, "repetition", got[k], whole[p], rtol, atol, "%s element %d repeated at %d" % (tag, p, k))
    if hostile is not None and B > 1:
        b = int(rng.integers(0, B))
        got = f([e if k == b else hostile(e) for k, e in enumerate(elems)])
        same(ctx, "hostile-neighbours", got[b], whole[b], rtol, atol, "%s element %d with other elements replaced" % (tag, b))
    ctx.count("elements-compared", B)


def split(r):
    """gen.Rgbd -> list of single-element Rgbds"""
    return [r.sub(b=b) for b in range(r.rgb.shape[0])]


def join(rs):
    P = None if any(r.poses is None for r in rs) else np.concatenate([r.poses for r in rs])
    return gen.Rgbd(np.concatenate([r.rgb for r in rs]), np.concatenate([r.depth for r in rs]), np.concatenate([r.K for r in rs]), P, rs[0].dtype)


def hostile_frames(rng, nan=False):
    def f(r):
        d, K, P, rgb = r.depth.copy(), r.K.copy(), None if r.poses is None else r.poses.copy(), r.rgb.copy()
        k = rng.choice(["empty", "far", "near", "camera", "pose", "one", "negative"] + (["nan"] if nan else []))
        if k == "empty":
            d[:] = 0
        elif k == "far":
            d = d * 1e3
        elif k == "near":
            d = d * 1e-3
        elif k == "camera":
            K[..., 0, 0] *= 7; K[..., 1, 1] *= .2; K[..., 0, 2] -= 2; K[..., 0, 1] = .5
        elif k == "pose" and P is not None:
            P = gen.rigids(rng, P.shape[:2], max_t=20)
        elif k == "one":
            m = np.zeros_like(d); m[..., 0, 0] = 1
            d = np.where(m > 0, np.abs(d) + 1, 0)
        elif k == "negative":
            d = -np.abs(d)
        else:
            d = np.where(rng.random(d.shape) < .5, np.nan, d)
            rgb = rgb * np.inf
        return gen.Rgbd(rgb, d, K, P, r.dtype)
    return f


def vals(pc, b, normals=True):
    g = lambda l: None if l is None else l[b].detach().double().numpy()
    out = {"points": g(pc.points_list), "colours": g(pc.colors_list), "confidences": g(pc.features_list)}
    if normals:
        out["normals"] = g(pc.normals_list)
    return out


# --------------------------------------------------------------------------------------- workloads
def maps(ctx):
    rng = ctx.rng
    dt = gen.dt(rng)
    B = gen.count(rng, 2, 5, 6, 13, .05)
    r = gen.rgbd(rng, B=B, dtype=dt)
    cf = bool(rng.random() < .4)
    order = [str(x) for x in rng.permutation(["vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "valid_depth_mask"])]
    use = rng.random() < .3

    def f(es):
        im = join(es).build(cf)
        if use:      # select from the built batch instead of building the selection
            im = im[:, :]
        out = [{} for _ in es]
        for g in order:
            v = getattr(im, g)
            for b in range(len(es)):
                out[b][g] = v[b].double().numpy()
        return out
    independence(ctx, split(r), f, hostile_frames(rng, nan=True), 0, 1e-5 if dt == torch.float32 else 1e-10, "maps")
    # indexing the batch equals building the element alone
    im = r.build(cf)
    for g in order[:2]:
        getattr(im, g)
    b = int(rng.integers(0, B))
    one, al = im[b], r.sub(b=b).build(cf)
    for g in order:
        ctx.close("indexed-same-as-alone", getattr(one, g).double(), getattr(al, g).double(), 0, 1e-4 if dt == torch.float32 else 1e-9, g)
    ctx.set(shape=r.shape, dtype=str(dt), cf=cf)
    ctx.state(B, r.shape[1:], str(dt), cf, r.poses is None)


def clouds(ctx):
    """arithmetic and rigid motion with per-element operands, appends, assignments"""
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = gen.dt(rng)
    B = gen.count(rng, 2, 5, 6, 13, .05)
    attrs = [a for a in ("normals", "colors", "features") if rng.random() < .7]
    n = [int(x) for x in rng.choice([0, 1, 2, 7, 20], B)]
    if rng.random() < .25:
        n = [max(1, n[0])] * B
    if max(n) == 0:
        n[0] = 3
    zmin = .5
    mk = lambda k: {"points": np.concatenate([rng.uniform(-2, 2, (k, 2)), rng.uniform(zmin, 3, (k, 1))], 1), "normals": rng.normal(size=(k, 3)), "colors": rng.uniform(0, 1, (k, 3)), "features": rng.uniform(0, 1, (k, 2))}
    els = [dict(cloud=mk(k), more=mk(int(rng.integers(1, 6)) if k or rng.random() < .5 else 0), M=gen.rigid(rng), M2=gen.rigid(rng), K=gen.intrinsics(rng, 8, 8), t=rng.normal(size=3), s=rng.uniform(.5, 2, (1,)), new=rng.normal(size=(k, 3))) for k in n]
    ops = [str(x) for x in rng.choice(["offset", "sub", "scale", "div", "rotate", "transform", "post", "matmul", "append", "setlist", "setpad", "warm", "scalar"], int(rng.integers(1, 7)))]
    last = bool(rng.random() < .3)
    tt = lambda a: torch.tensor(np.asarray(a), dtype=dt)

    def cloud(es, key):
        kw = {a: [tt(e[key][a]).reshape(-1, 2 if a == "features" else 3) for e in es] for a in ["points"] + attrs}
        return Pointclouds(**kw)

    def f(es):
        pc = cloud(es, "cloud")
        for op in ops:
            per = lambda k: torch.stack([tt(e[k]) for e in es])
            if op == "offset": pc.offset_(per("t")[:, None])
            elif op == "sub": pc = pc - per("t")[:, None]
            elif op == "scale": pc.scale_(per("s")[:, None])
            elif op == "div": pc = pc / per("s")[:, None]
            elif op == "rotate": pc.rotate_(per("M")[:, :3, :3])
            elif op == "transform": pc = pc.transform(per("M2"))
            elif op == "post": pc.transform_(per("M"), pre_multiplication=False)
            elif op == "matmul": pc = pc @ per("M2")
            elif op == "append": pc.append_points(cloud(es, "more"))
            elif op == "warm": pc.points_padded, pc.points_list, pc.nonpad_mask, pc.normals_padded
            elif op == "scalar": pc = pc * 1.5
            elif op == "setlist": pc.points_list = [p + tt(e["t"]) for p, e in zip(pc.points_list, es)]
            elif op == "setpad": pc.points_padded = pc.points_padded * 2
        if last:
            # bring every point in front of its camera first
            pc.points_list = [torch.cat([p[:, :2], p[:, 2:].abs() + .5], 1) for p in pc.points_list]
            pc.pinhole_projection_(torch.stack([tt(e["K"]) for e in es]))
        out = []
        for b in range(len(es)):
            d = vals(pc, b)
            d["count"] = int(pc.num_points_per_pointcloud[b])
            d["padded"] = pc.points_padded[b][pc.nonpad_mask[b]].double().numpy()
            out.append(d)
        return out

    def hostile(e):
        k = int(rng.choice([0, 1, 50]))
        c = mk(k)
        h = dict(e, cloud=c, more=mk(3), new=rng.normal(size=(k, 3)), t=rng.normal(size=3) * 1e3)
        return h
    independence(ctx, els, f, hostile, 0, 2e-5 if dt == torch.float32 else 1e-10, "clouds " + "-".join(ops))
    ctx.set(sizes=n, ops=ops, attrs=attrs, dtype=str(dt))
    ctx.state(tuple(n), tuple(ops), tuple(attrs), str(dt))


def conversion(ctx):
    """frames to clouds, down-sampling, aggregation into ragged maps"""
    from gradslam.odometry.icputils import downsample_rgbdimages
    from gradslam.slam.fusionutils import update_map_aggregate
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    rng = ctx.rng
    dt = gen.dt(rng)
    B = gen.count(rng, 2, 5, 6, 13, .05)
    r = gen.rgbd(rng, B=B, L=1, dtype=dt, poses=True)
    cf = bool(rng.random() < .4)
    glob, filt, ds = bool(rng.random() < .6), bool(rng.random() < .7), int(rng.integers(1, 4))
    frs = MM.frames_of(r)
    els = [dict(r=x, m=MM.map_for_frame(rng, f)) for x, f in zip(split(r), frs)]
    rounds = int(rng.integers(1, 3))

    def f(es):
        im = join([e["r"] for e in es]).build(cf)
        a = pointclouds_from_rgbdimages(im, global_coordinates=glob, filter_missing_depths=filt)
        d = downsample_rgbdimages(im, ds)
        mp = MM.build_map([e["m"].copy() for e in es], dt, features=False)
        for _ in range(rounds):
            mp = update_map_aggregate(mp, im, inplace=bool(rng.random() < .5))
        out = []
        for b in range(len(es)):
            o = {}
            for nm, pc in (("convert", a), ("downsample", d), ("aggregate", mp)):
                for k, v in vals(pc, b).items():
                    o[nm + "/" + k] = v
            out.append(o)
        return out
    hf = hostile_frames(rng)
    independence(ctx, els, f, lambda e: dict(r=hf(e["r"]), m=MM.map_for_frame(rng, frs[0])), 0, 2e-5 if dt == torch.float32 else 1e-10, "conversion")
    ctx.set(shape=r.shape, glob=glob, filt=filt, ds=ds, dtype=str(dt))
    ctx.state(r.shape, glob, filt, ds, str(dt), cf)


def fusion(ctx):
    """visibility, similarity, unique choice, fusion, down-sampling of the active map (double precision)"""
    from gradslam.odometry.icputils import downsample_pointclouds
    from gradslam.slam import fusionutils as F
    rng = ctx.rng
    dt = torch.float64
    B = gen.count(rng, 2, 5, 6, 11, .04)
    r = MM.surface_rgbd(rng, B=B, dtype=dt)
    cf = bool(rng.random() < .4)
    if rng.random() < .3:      # the same camera everywhere: identical pixels in neighbouring elements
        r.K[:] = r.K[:1]; r.poses[:] = r.poses[:1]; r.depth[:] = r.depth[:1]
    frs = MM.frames_of(r)
    els = [dict(r=x, m=MM.map_for_frame(rng, f)) for x, f in zip(split(r), frs)]
    if rng.random() < .3:
        for e in els[1:]:
            e["m"] = els[0]["m"].copy()
    dist_th, dot_th, sigma, ds = float(rng.uniform(.02, .5)), float(rng.uniform(0, .95)), float(rng.uniform(.3, 2)), int(rng.integers(1, 4))
    inplace = bool(rng.random() < .5)

    def f(es):
        im = join([e["r"] for e in es]).build(cf)
        pc = MM.build_map([e["m"].copy() for e in es], dt)
        act = F.find_active_map_points(pc, im)
        simi, _ = F.find_similar_map_points(pc, im, act, dist_th, dot_th)
        uni = F.find_best_unique_correspondences(pc, im, simi)
        cor = F.find_correspondences(pc, im, dist_th, dot_th)
        dsm = downsample_pointclouds(pc, act, ds)
        fused = F.fuse_with_map(pc, im, cor, sigma, inplace=False)
        upd = F.update_map_fusion(pc, im, dist_th, dot_th, sigma, inplace=inplace)
        upd = F.update_map_fusion(upd, im, dist_th, dot_th, sigma, inplace=inplace)
        out = []
        for b in range(len(es)):
            o = {}
            for nm, t in (("active", act), ("similar", simi), ("unique", uni), ("matches", cor)):
                t = t[t[:, 0] == b][:, 1:].numpy()
                o[nm] = t[np.lexsort(t.T[::-1])] if len(t) else np.zeros((0, 3))
            for nm, pc_ in (("downsampled", dsm), ("fused", fused), ("updated", upd)):
                for k, v in vals(pc_, b).items():
                    o[nm + "/" + k] = v
            out.append(o)
        return out
    hf = hostile_frames(rng)
    # element 0 without a single map point must behave alone as it does in the batch
    independence(ctx, els, f, lambda e: dict(r=hf(e["r"]), m=MM.map_for_frame(rng, frs[0])), 0, 1e-8, "fusion")
    ctx.set(shape=r.shape, sizes=[len(e["m"]) for e in els], dist_th=dist_th, dot_th=dot_th, ds=ds)
    ctx.state(r.shape, tuple(len(e["m"]) for e in els), cf, inplace, ds)


def odometry(ctx):
    from gradslam.odometry.gradicp import GradICPOdometryProvider
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    from gradslam.odometry.icp import ICPOdometryProvider
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    dt = gen.dt(rng, .6)
    B = gen.count(rng, 2, 5, 6, 11, .04)
    which = str(rng.choice(["icp", "gradicp", "gt"]))
    if which == "gt":
        r = gen.rgbd(rng, B=B, L=1, h=3, w=3, poses=True, dtype=dt)
        r2 = gen.rgbd(rng, B=B, L=1, h=3, w=3, poses=True, dtype=dt)
        els = list(zip(split(r), split(r2)))
        prov = GroundTruthOdometryProvider()

        def f(es):
            T = prov.provide(join([e[0] for e in es]).build(), join([e[1] for e in es]).build())
            return [{"T": T[b].double().numpy()} for b in range(len(es))]
        hf = hostile_frames(rng)
        independence(ctx, els, f, lambda e: (hf(e[0]), e[1]), 0, 1e-5 if dt == torch.float32 else 1e-10, "gt")
        ctx.state(which, B, str(dt))
        return
    def mk():
        u = rng.random()
        if u < .6:
            s, t, n, _, _ = IM.overlapping_pair(rng)
        elif u < .9:
            s = IM.random_cloud(rng, int(rng.integers(1, 20)))[0]
            t, n = IM.random_cloud(rng, int(rng.integers(1, 20)))
        else:
            s, t, n = np.zeros((0, 3)), *IM.random_cloud(rng, 5)
        return s, t, n
    els = [mk() for _ in range(B)]
    if all(len(e[0]) == 0 for e in els):
        raise Skip()
    it, damp = int(rng.integers(1, 10)), float(10 ** rng.uniform(-6, 0))
    thr = None if rng.random() < .5 else float(rng.uniform(.2, .8))
    if which == "icp":
        prov = ICPOdometryProvider(it, damp, thr)
    else:
        prov = GradICPOdometryProvider(it, damp, thr, float(rng.uniform(1, 4)), float(rng.uniform(.2, 3)), float(rng.uniform(.2, 3)), float(rng.uniform(1, 200)))
    tt = lambda a: torch.tensor(a, dtype=dt)

    def f(es):
        T = prov.provide(Pointclouds([tt(e[1]) for e in es], [tt(e[2]) for e in es]), Pointclouds([tt(e[0]) for e in es]))
        return [{"T": T[b].double().numpy()} for b in range(len(es))]
    independence(ctx, els, f, lambda e: mk(), 0, 1e-5 if dt == torch.float32 else 1e-9, "%s" % which)
    ctx.set(which=which, sizes=[(len(e[0]), len(e[1])) for e in els], it=it, damp=damp, thr=thr, dtype=str(dt))
    ctx.state(which, tuple(len(e[0]) for e in els), it, thr is None, str(dt))


def slam(ctx):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    rng = ctx.rng
    dt = torch.float64
    B, L = gen.count(rng, 2, 4, 4, 8, .08), int(rng.integers(1, 5))
    h, w = int(rng.integers(7, 14)), int(rng.integers(7, 14))
    r = scene.sequence(rng, B, L, h, w, dt, step_t=.02, step_r=.02, first=None if rng.random() < .5 else gen.rigid(rng), missing=float(rng.choice([0, .1])))
    if rng.random() < .4:
        r.poses = None
    odom = str(rng.choice(["gt", "icp", "gradicp"]))
    if odom == "gt" and r.poses is None:
        r.poses = gen.rigids(rng, (B, L))
    name = str(rng.choice(["ICPSLAM", "PointFusion"]))
    kw = dict(odom=odom, dsratio=int(rng.integers(1, 4)), numiters=int(rng.integers(1, 6)), damp=float(rng.choice([1e-6, 1e-3, 1e-1])), dist_thresh=None if rng.random() < .6 else float(rng.uniform(.3, .8)))
    sl = ICPSLAM(**kw) if name == "ICPSLAM" else PointFusion(**kw)
    cf = bool(rng.random() < .4)

    def f(es):
        pc, P = sl(join(es).build(cf))
        out = []
        for b in range(len(es)):
            o = vals(pc, b) if pc.has_points else {"points": np.zeros((0, 3)), "colours": None, "confidences": None, "normals": None}
            o["poses"] = P[b].double().numpy()
            out.append(o)
        return out

    hf = hostile_frames(rng)
    independence(ctx, split(r), f, hf, 0, 1e-6, "%s/%s" % (name, odom))
    ctx.set(name=name, B=B, L=L, h=h, w=w, poses=r.poses is not None, **{k: v for k, v in kw.items()})
    ctx.state(name, odom, B, L, kw["dsratio"], r.poses is None, cf)


def geometry(ctx):
    """batched geometric functions"""
    from gradslam.geometry import geometryutils as G, projutils as P
    rng = ctx.rng
    dt = gen.dt(rng)
    B, n = int(rng.integers(2, 5)), int(rng.integers(1, 6))
    tt = lambda a: torch.tensor(np.asarray(a), dtype=dt)
    els = [dict(p=np.concatenate([rng.normal(size=(n, 2)), rng.uniform(.5, 3, (n, 1))], 1), M=gen.rigid(rng), M2=gen.rigid(rng), K=gen.intrinsics(rng, 8, 8), q=rng.normal(size=4), d=rng.uniform(.5, 3, n)) for _ in range(B)]

    def f(es):
        s = lambda k: torch.stack([tt(e[k]) for e in es])
        K, p = s("K"), s("p")
        res = {"project": P.project_points(p, K.unsqueeze(1).squeeze(1)), "unproject": P.unproject_points(p[..., :2], P.inverse_intrinsics(K)[:, :3, :3], s("d")),
               "kinv": P.inverse_intrinsics(K), "homo": P.homogenize_points(p), "unhomo": P.unhomogenize_points(p),
               "inv": G.inverse_transfom_3d(s("M")), "compose": G.compose_transforms_3d(s("M"), s("M2")), "rel": G.relative_transform_3d(s("M"), s("M2")),
               "rel2": G.relative_transformation(s("M"), s("M2")), "quat": G.quaternion_to_rotation_matrix(s("q")), "aa": G.quaternion_to_axisangle(G.normalize_quaternion(s("q"))),
               "nd": G.transform_pts_nd_KF(p, s("M")), "cam2pixel": G.cam2pixel_KF(p, K)}
        return [{k: v[b].double().numpy() for k, v in res.items()} for b in range(len(es))]

    def hostile(e):
        return dict(e, p=e["p"] * [1, 1, 0] if rng.random() < .5 else e["p"] * 1e4, q=np.array([1e-9, 0, 0, 0]) if rng.random() < .5 else e["q"] * 50, K=e["K"] * .1 + np.eye(4), M=gen.rigid(rng, max_t=100))
    independence(ctx, els, f, hostile, 0, 5e-5 if dt == torch.float32 else 1e-9, "geometry")
    ctx.state(B, n, str(dt))


CHECK = Check("C15", [
    Family("maps", quiet(maps), 200, 4000),
    Family("clouds", quiet(clouds), 250, 5000),
    Family("conversion", quiet(conversion), 150, 3000),
    Family("fusion", quiet(fusion), 150, 3000),
    Family("odometry", quiet(odometry), 150, 3000),
    Family("slam", quiet(slam), 60, 1200),
    Family("geometry", quiet(geometry), 60, 800),
], require=["same-as-alone", "permutation", "repetition", "hostile-neighbours", "indexed-same-as-alone"],
    rule="case = one batch run whole, element by element, permuted and with hostile neighbours; distinct = (workload, batch composition, configuration, dtype, layout)",
    assumptions=["workloads with discrete choices (association, fusion, SLAM) run in double precision so that rounding cannot flip a choice between runs"])
