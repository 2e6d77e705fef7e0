"""C16: gradients exist, are finite and correct."""
import numpy as np
import torch

from checks.c12 import quiet
from vlib import gen, gradcheck as GC, icpmodel as IM, mapmodel as MM, scene
from vlib.core import Check, Family, Skip

D = torch.float64
tt = lambda a: torch.tensor(np.asarray(a), dtype=D)


def frame_inputs(r, cf=False, poses=True):
    """tensors of a gen.Rgbd and the masks of perturbable entries"""
    rgb, d, K, P = r.tensors(cf)
    x = {"rgb": rgb.double(), "depth": d.double(), "intrinsics": K.double()}
    m = {"depth": (d > 0).double()}
    k = torch.zeros_like(x["intrinsics"])
    for i, j in ((0, 0), (1, 1), (0, 2), (1, 2), (0, 1)):
        k[..., i, j] = 1
    m["intrinsics"] = k
    if P is not None and poses:
        x["poses"] = P.double()
        q = torch.zeros_like(x["poses"]); q[..., :3, :] = 1
        m["poses"] = q
    return x, m


def images(x, cf=False):
    from gradslam.structures.rgbdimages import RGBDImages
    return RGBDImages(x["rgb"], x["depth"], x["intrinsics"], x.get("poses"), channels_first=cf)


def no_grazing(r):
    """normals are differentiable where the two surface differences are not parallel"""
    return all(f.normal_ok.all() for s in range(r.rgb.shape[1]) for f in MM.frames_of(r, s))


def rgbd(rng, **kw):
    r = gen.rgbd(rng, dtype=D, **kw)
    return r


def maps(ctx):
    rng = ctx.rng
    r = rgbd(rng, h=int(rng.integers(1, 6)), w=int(rng.integers(1, 6)))
    cf = bool(rng.random() < .4)
    x, m = frame_inputs(r, cf)
    want = [str(w) for w in rng.permutation(["vertex_map", "normal_map", "global_vertex_map", "global_normal_map"])[:int(rng.integers(1, 5))]]
    flip = rng.random() < .3
    if min(r.shape[2:4]) > 1 and not no_grazing(r):        # rounding decides the direction of a normal there
        want = [g for g in want if "normal" not in g] or ["vertex_map"]
        ctx.count("normals-left-out-degenerate-surface")

    def f(x):
        im = images(x, cf)
        if flip:
            im = im.to_channels_last() if cf else im.to_channels_first()
        return [getattr(im, g) for g in want]
    # what each of these depends on
    exp = {"depth", "intrinsics"} if r.poses is None or not any(g.startswith("global") for g in want) else {"depth", "intrinsics", "poses"}
    if (r.depth > 0).any():
        GC.check(ctx, f, x, m, tag="+".join(want), expect=exp, dirs=2)
    ctx.set(shape=r.shape, want=want, cf=cf)
    ctx.state(r.shape, tuple(sorted(want)), cf, r.poses is None, flip)


def conversion(ctx):
    """frames -> cloud -> chain of cloud operations -> every view"""
    from gradslam.odometry.icputils import downsample_rgbdimages
    from gradslam.structures.pointclouds import Pointclouds
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    rng = ctx.rng
    r = rgbd(rng, L=1, h=int(rng.integers(2, 6)), w=int(rng.integers(2, 6)), poses=True)
    cf = bool(rng.random() < .4)
    if not (r.depth > 0).any():
        raise Skip()
    x, m = frame_inputs(r, cf)
    B = r.shape[0]
    x["t"] = tt(rng.normal(size=(B, 1, 3))); x["s"] = tt(rng.uniform(.5, 2, (1,))); x["R"] = tt(gen.rigids(rng, (B,))); x["K2"] = tt(np.stack([gen.intrinsics(rng, 6, 6) for _ in range(B)]))
    ops = [str(o) for o in rng.choice(["offset", "sub", "scale", "div", "transform", "rotate", "post", "clone", "index", "append", "setlist", "setpad", "to", "self"], int(rng.integers(1, 6)))]
    glob, filt, ds = bool(rng.random() < .6), bool(rng.random() < .7), int(rng.integers(0, 3))
    pin = rng.random() < .3
    view = str(rng.choice(["list", "padded"]))

    def f(x):
        im = images(x, cf)
        pc = downsample_rgbdimages(im, ds) if ds else pointclouds_from_rgbdimages(im, global_coordinates=glob, filter_missing_depths=filt)
        for o in ops:
            if o == "offset": pc = pc + x["t"]
            elif o == "sub": pc = pc - x["t"]
            elif o == "scale": pc.scale_(x["s"])
            elif o == "div": pc = pc / x["s"]
            elif o == "transform": pc.transform_(x["R"])
            elif o == "rotate": pc = pc.rotate(x["R"][:, :3, :3])
            elif o == "post": pc = pc @ x["R"]
            elif o == "clone": pc = pc.clone()
            elif o == "index": pc = pc[list(range(B))]
            elif o == "append": pc.append_points(pc.clone())
            elif o == "setlist": pc.points_list = [p * 2 for p in pc.points_list]
            elif o == "setpad": pc.normals_padded = pc.normals_padded * 2
            elif o == "to": pc = pc.to("cpu", copy=True)
            elif o == "self":
                m2 = Pointclouds(); m2.append_points(pc); pc = m2
        if pin:
            # in front of the camera, padding stays at zero
            pc.points_list = [torch.cat([p[:, :2], p[:, 2:] ** 2 + .5], 1) for p in pc.points_list]
            pc.pinhole_projection_(x["K2"])
        if view == "list":
            return list(pc.points_list) + list(pc.normals_list) + list(pc.colors_list)
        return [pc.points_padded, pc.normals_padded, pc.colors_padded]
    exp = {"depth", "rgb", "intrinsics"} | ({"poses"} if ds or glob else set())
    if set(ops) & {"offset", "sub"}: exp.add("t")
    if set(ops) & {"scale", "div"}: exp.add("s")
    if set(ops) & {"transform", "rotate", "post"}: exp.add("R")
    if pin: exp.add("K2")
    mk = torch.zeros(B, 4, 4, dtype=D); mk[:, :3, :] = 1; m["R"] = mk
    mk = torch.zeros(B, 4, 4, dtype=D)
    for i, j in ((0, 0), (1, 1), (0, 2), (1, 2)):
        mk[:, i, j] = 1
    m["K2"] = mk
    if ds and not (r.depth[..., ::ds, ::ds] > 0).any():
        raise Skip()
    GC.check(ctx, f, x, m, tag="cloud " + "-".join(ops) + ("-pinhole" if pin else ""), expect=exp)
    ctx.set(shape=r.shape, ops=ops, view=view, pin=bool(pin), ds=ds)
    ctx.state(r.shape, tuple(ops), view, bool(pin), ds, cf)


def fusion(ctx):
    """maps over several frames, by fusion and aggregation"""
    from gradslam.slam.fusionutils import update_map_aggregate, update_map_fusion
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    kind = str(rng.choice(["fusion", "fusion", "aggregate"]))
    B, L = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    r = scene.sequence(rng, B, L, int(rng.integers(3, 7)), int(rng.integers(3, 7)), D, step_t=.01, step_r=.01, missing=float(rng.choice([0, .2])))
    if not (r.depth[:, 0] > 0).any():
        raise Skip()
    cf = bool(rng.random() < .4)
    x, m = frame_inputs(r, cf)
    dist_th, dot_th = float(rng.choice([.05, .3])), float(rng.choice([.3, .8]))
    x["sigma"] = tt(float(rng.uniform(.8, 2)))
    inplace = bool(rng.random() < .5)
    start = rng.random() < .4
    if start:
        frs = MM.frames_of(r)
        e = [MM.map_for_frame(rng, f, int(rng.integers(1, 8))) for f in frs]
        n = max(len(q) for q in e)
        for k in ("P", "N", "C", "c"):
            for b, q in enumerate(e):
                x["map%s%d" % (k, b)] = tt(getattr(q, k))

    def f(x):
        im = images(x, cf)
        mp = Pointclouds()
        if start:
            g = lambda k: [x["map%s%d" % (k, b)] for b in range(B)]
            mp = Pointclouds(g("P"), g("N"), g("C"), g("c") if kind == "fusion" else None)
        for s in range(L):
            if kind == "fusion":
                mp = update_map_fusion(mp, im[:, s], dist_th, dot_th, x["sigma"], inplace=inplace)
            else:
                mp = update_map_aggregate(mp, im[:, s], inplace=inplace)
        return list(mp.points_list) + list(mp.normals_list) + list(mp.colors_list) + (list(mp.features_list) if kind == "fusion" else [])
    exp = {"rgb", "depth", "intrinsics", "poses"} | ({"sigma"} if kind == "fusion" else set())
    if start:
        exp |= {k for k in x if k.startswith("map") and (kind == "fusion" or k[3] != "c")}
    GC.check(ctx, f, x, m, tag="%s of %d frames%s" % (kind, L, " into an existing map" if start else ""), expect=exp)
    ctx.set(kind=kind, B=B, L=L, inplace=inplace, start=bool(start), cf=cf)
    ctx.state(kind, B, L, inplace, bool(start), cf, r.shape)


def icp(ctx):
    """recovered motion with respect to both clouds, normals and the initial motion"""
    from gradslam.odometry import icputils as IU
    rng = ctx.rng
    which = str(rng.choice(["gradicp", "gradicp", "icp", "gauss", "solve"]))
    s, t, n, M, kind = IM.overlapping_pair(rng, "spaced")
    if which == "solve":
        A, b = rng.normal(size=(10, 6)), rng.normal(size=(10, 1))
        GC.check(ctx, lambda x: [IU.solve_linear_system(x["A"], x["b"], x["damp"])], {"A": tt(A), "b": tt(b), "damp": tt(float(10 ** rng.uniform(-3, 1)))}, tag="solve")
        ctx.state(which)
        return
    x = {"src": tt(s), "tgt": tt(t), "normals": tt(n)}
    thr = None if rng.random() < .6 else .3
    if which == "gauss":
        GC.check(ctx, lambda x: list(IU.gauss_newton_solve(x["src"][None], x["tgt"][None], x["normals"][None], thr)[:2]), x, tag="gauss_newton")
        ctx.state(which, thr is None)
        return
    x["init"] = torch.eye(4, dtype=D) if rng.random() < .5 else tt(gen.rigid(rng, .01, .01))
    m = {"init": torch.ones(4, 4, dtype=D)}; m["init"][3] = 0
    it, damp = int(rng.integers(1, 6)), float(rng.choice([1e-6, 1e-2, 1.0]))
    if which == "gradicp":
        kw = dict(lambda_max=float(rng.uniform(1, 4)), B=float(rng.uniform(.2, 3)), B2=float(rng.uniform(.2, 3)), nu=float(rng.uniform(1, 200)))
        if rng.random() < .6:
            # the damping and step laws carry weight: slopes matched to the error changes, damping to the normal matrix
            it, damp = int(rng.integers(2, 6)), float(10 ** rng.uniform(-1, 1.5))
            e0 = IM.Lin(IM.apply(np.asarray(x["init"]), s), t, n, thr).err + 1e-9
            kw["B"], kw["B2"] = [float(10 ** rng.uniform(-.5, .7) / e0) for _ in range(2)]
            kw["nu"] = float(rng.uniform(1, 20))
            ctx.count("law-sensitive-runs")
        if rng.random() < .3:
            single(ctx, IU, s, t, n)
        fn = lambda x: [IU.point_to_plane_gradICP(x["src"][None], x["tgt"][None], x["normals"][None], x["init"], it, damp, thr, **kw)[0]]
    else:
        fn = lambda x: [IU.point_to_plane_ICP(x["src"][None], x["tgt"][None], x["normals"][None], x["init"], it, damp, thr)[0]]
    GC.check(ctx, fn, x, m, tag="%s it=%d damp=%g" % (which, it, damp), rtol=1e-3, atol=1e-5, dirs=2, expect={"src", "tgt", "normals", "init"} if which == "gradicp" else {"init"})
    ctx.set(which=which, it=it, damp=damp, thr=thr, kind=str(kind))
    ctx.state(which, it, damp, thr is None)


def single(ctx, IU, s, t, n):
    """single precision, any slope: gradients exist and are finite while the transform is"""
    rng = ctx.rng
    M = gen.rigid(rng, max_angle=.5, max_t=float(rng.choice([.1, 3, 10])))
    xs = {"src": s @ M[:3, :3].T + M[:3, 3], "tgt": t, "normals": n, "init": np.eye(4)}
    xs = {k: torch.tensor(v, dtype=torch.float32).requires_grad_() for k, v in xs.items()}
    kw = dict(lambda_max=float(rng.uniform(1, 4)), B=float(10 ** rng.uniform(-1, 2.5)), B2=float(10 ** rng.uniform(-1, 2.5)), nu=float(rng.uniform(1, 200)))
    it = int(rng.integers(1, 4))
    T = IU.point_to_plane_gradICP(xs["src"][None], xs["tgt"][None], xs["normals"][None], xs["init"], it, float(10 ** rng.uniform(-2, 1)), None, **kw)[0]
    if not torch.isfinite(T).all() or T.abs().max() > 1e3:
        ctx.count("single-precision-diverged")
        return
    (T[:3] * torch.randn(3, 4, generator=ctx.tgen)).sum().backward()
    for k, v in xs.items():
        if ctx.ok("gradient-exists", v.grad is not None, "no gradient reaches %s (single precision)" % k):
            ctx.ok("gradient-finite", torch.isfinite(v.grad).all(), "single precision, %d iterations, %s: gradient of %s is not finite" % (it, kw, k))
    ctx.count("single-precision-runs")


def trajectory(ctx):
    """poses and map of a SLAM run with gradient-based odometry, down to the sensor inputs"""
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    rng = ctx.rng
    B, L = int(rng.integers(1, 3)), int(rng.integers(2, 4))
    r = scene.sequence(rng, B, L, int(rng.integers(6, 10)), int(rng.integers(6, 10)), D, step_t=.01, step_r=.01)
    if rng.random() < .4:
        r.poses = None
    else:
        r.poses = np.repeat(r.poses[:, :1], L, 1)
    odom = str(rng.choice(["gradicp", "gradicp", "gt"]))
    if odom == "gt" and r.poses is None:
        r.poses = gen.rigids(rng, (B, L))
    kw = dict(odom=odom, dsratio=int(rng.integers(1, 3)), numiters=int(rng.integers(1, 4)), damp=float(rng.choice([1e-3, 1e-1])), B=1.0, B2=1.0, nu=float(rng.choice([5, 200])))
    slam = PointFusion(dist_th=.2, angle_th=40, **kw) if rng.random() < .5 else ICPSLAM(**kw)
    cf = bool(rng.random() < .3)
    x, m = frame_inputs(r, cf)
    whole = rng.random() < .6
    what = str(rng.choice(["poses", "map", "both"]))

    def f(x):
        im = images(x, cf)
        if whole:
            pc, P = slam(im)
        else:
            from gradslam.structures.pointclouds import Pointclouds
            pc, prev, Ps = Pointclouds(), None, []
            for s in range(L):
                live = im[:, s]
                if s == 0 and live.poses is None:
                    live.poses = torch.eye(4, dtype=D).repeat(B, 1, 1, 1)
                pc, p = slam.step(pc, live, prev if odom != "gt" else None, inplace=False)
                live.poses = p
                prev = live
                Ps.append(p)
            P = torch.cat(Ps, 1)
        out = [P] if what != "map" else []
        if what != "poses":
            out += list(pc.points_list) + list(pc.normals_list) + list(pc.colors_list)
        return out
    exp = set()
    if odom == "gradicp" or what != "poses":
        exp |= {"depth", "intrinsics"}
    if what != "poses":
        exp |= {"rgb"}
    if r.poses is not None:
        exp |= {"poses"}
    if not exp:
        raise Skip()
    if r.poses is not None and odom != "gt":
        m["poses"][:, 1:] = 0
    GC.check(ctx, f, x, m, tag="%s/%s %s of %d frames%s" % (type(slam).__name__, odom, what, L, "" if whole else " stepwise"), rtol=2e-3, atol=1e-5, expect=exp, dirs=2)
    # every frame matters: the gradient of the last pose reaches each depth frame
    if odom == "gradicp" and what == "poses" and whole:
        xs = {k: v.clone().requires_grad_() for k, v in x.items()}
        f(xs)[0][:, -1].pow(2).sum().backward()
        g = xs["depth"].grad.abs().flatten(2).sum(2)
        ctx.ok("gradient-reaches-every-frame", (g > 0).all(), "last pose has no gradient to some depth frames: %s" % g.tolist())
    ctx.set(slam=type(slam).__name__, odom=odom, B=B, L=L, what=what, whole=bool(whole), poses=r.poses is not None)
    ctx.state(type(slam).__name__, odom, B, L, what, bool(whole), r.poses is None, kw["dsratio"], cf)


def geometry(ctx):
    from gradslam.geometry import geometryutils as G, projutils as P, se3utils as S
    rng = ctx.rng
    n, B = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    pts = np.concatenate([rng.normal(size=(B, n, 2)), rng.uniform(.5, 3, (B, n, 1))], -1)
    K = np.stack([gen.intrinsics(rng, 8, 8) for _ in range(B)])
    M, M2 = gen.rigids(rng, (B,)), gen.rigids(rng, (B,))
    km = torch.zeros(B, 4, 4, dtype=D)
    for i, j in ((0, 0), (1, 1), (0, 2), (1, 2), (0, 1)):
        km[:, i, j] = 1
    rm = torch.zeros(B, 4, 4, dtype=D); rm[:, :3] = 1
    th = float(rng.choice([0, 1e-7, 1e-5, 1e-3, .1, 1, 3, 3.14159]))
    ax = rng.normal(size=3); ax /= np.linalg.norm(ax)
    q = rng.normal(size=(B, 4))
    if rng.random() < .3:
        q[0] = [0, 0, 0, 1 if rng.random() < .5 else -1]
    hp = np.concatenate([pts, rng.uniform(.5, 2, (B, n, 1)) * rng.choice([-1, 1], (B, n, 1))], -1)
    edge = rng.random() < .3
    if edge:
        hp[0, 0, 3] = 0          # a point at infinity
        pts = pts.copy(); pts[-1, -1, 2] = 0
    cases = {
        "project": (lambda x: [P.project_points(x["p"], x["K"])], {"p": pts, "K": K}, {"K": km}),
        "unproject": (lambda x: [P.unproject_points(x["p"][..., :2], P.inverse_intrinsics(x["K"])[:, :3, :3], x["d"])], {"p": pts, "K": K, "d": rng.uniform(.5, 2, (B, n))}, {"K": km}),
        "inverse_intrinsics": (lambda x: [P.inverse_intrinsics(x["K"])], {"K": K}, {"K": km}),
        "unhomogenize": (lambda x: [P.unhomogenize_points(x["h"])], {"h": hp}, {}),
        "unhomogenize-g": (lambda x: [G.unhomogenize_points(x["h"])], {"h": hp}, {}),
        "homogenize": (lambda x: [P.homogenize_points(x["h"]), G.homogenize_points(x["h"])], {"h": hp}, {}),
        "so3": (lambda x: [S.so3_exp(x["w"])], {"w": ax * th}, {}),
        "se3": (lambda x: [S.se3_exp(x["w"])], {"w": np.concatenate([rng.normal(size=3), ax * th])}, {}),
        "quaternion": (lambda x: [G.quaternion_to_rotation_matrix(x["q"])], {"q": q}, {}),
        "axisangle": (lambda x: [G.quaternion_to_axisangle(x["q"])], {"q": q / np.linalg.norm(q, axis=1, keepdims=True)}, {}),
        "normalize": (lambda x: [G.normalize_quaternion(x["q"])], {"q": q}, {}),
        "inverse": (lambda x: [G.inverse_transfom_3d(x["M"])], {"M": M}, {"M": rm}),
        "compose": (lambda x: [G.compose_transforms_3d(x["M"], x["N"])], {"M": M, "N": M2}, {"M": rm, "N": rm}),
        "relative": (lambda x: [G.relative_transform_3d(x["M"], x["N"]), G.relative_transformation(x["M"], x["N"])], {"M": M, "N": M2}, {"M": rm, "N": rm}),
        "transform-pts": (lambda x: [G.transform_pts_3d(x["p"][0], x["M"][0])], {"p": pts, "M": M}, {"M": rm}),
        "transform-nd": (lambda x: [G.transform_pts_nd_KF(x["p"], x["M"])], {"p": pts, "M": M}, {"M": rm}),
        "cam2pixel": (lambda x: [G.cam2pixel_KF(x["p"], x["K"])], {"p": pts, "K": K}, {"K": km}),
        "cloud": (lambda x: [G.transform_pointcloud(x["p"][0], x["M"][0]), G.transform_normals(x["p"][0], x["M"][0])], {"p": pts, "M": M}, {"M": rm}),
        "pixels": (lambda x: [G.normalize_pixel_coords(x["p"][..., :2], 7, 9), G.unnormalize_pixel_coords(x["p"][..., :2], 7, 9)], {"p": pts}, {}),
    }
    names = list(cases)
    for nm in [names[i] for i in rng.choice(len(names), 6, replace=False)]:
        f, x, m = cases[nm]
        GC.check(ctx, f, {k: tt(v) for k, v in x.items()}, m, tag=nm + (" (edge)" if edge else ""), dirs=2, atol=2e-5)
        ctx.state(nm, edge, th if nm in ("so3", "se3") else None, B > 1)


def attachment(ctx):
    """copies keep the path, detached copies cut it, and the original stays attached"""
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    obj = str(rng.choice(["cloud", "frames"]))
    how = str(rng.choice(["clone", "to-copy", "cpu", "detach", "index", "layout", "append"]))
    if obj == "cloud":
        B = int(rng.integers(1, 4))
        sz = [int(v) for v in rng.integers(1, 6, B)]
        if rng.random() < .4:
            sz = [sz[0]] * B
        leaf = {a: [torch.rand(k, 3, dtype=D, requires_grad=True) for k in sz] for a in ("points", "normals", "colors", "features")}
        if rng.random() < .4 and len(set(sz)) == 1:
            leaf = {a: [torch.rand(B, sz[0], 3, dtype=D, requires_grad=True)] for a in leaf}
            pc = Pointclouds(**{a: v[0] for a, v in leaf.items()})
        else:
            pc = Pointclouds(**leaf)
        views = [a + v for a in leaf for v in ("_list", "_padded")]
        for v in rng.permutation(views)[:int(rng.integers(0, 5))]:
            getattr(pc, str(v))
        if rng.random() < .3:
            pc.offset_(1.0)
        o = {"clone": lambda: pc.clone(), "to-copy": lambda: pc.to("cpu", copy=True), "cpu": lambda: pc.cpu(), "detach": lambda: pc.detach(), "index": lambda: pc[:], "layout": lambda: pc * 2,
             "append": lambda: Pointclouds().append_points(pc)}[how]()
        get = lambda c: [t for v in views for t in (getattr(c, v) if v.endswith("_list") else [getattr(c, v)])]
    else:
        r = gen.rgbd(rng, dtype=D, poses=True, missing="none", h=4, w=4)
        t = [q.requires_grad_() for q in r.tensors()]
        leaf = {"rgb": [t[0]], "depth": [t[1]], "intrinsics": [t[2]], "poses": [t[3]]}
        from gradslam.structures.rgbdimages import RGBDImages
        pc = RGBDImages(*t)
        views = ["rgb_image", "depth_image", "intrinsics", "poses", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map"]
        for v in rng.permutation(views)[:int(rng.integers(0, 5))]:
            getattr(pc, str(v))
        o = {"clone": lambda: pc.clone(), "to-copy": lambda: pc.to("cpu", copy=True), "cpu": lambda: pc.cpu(), "detach": lambda: pc.detach(), "index": lambda: pc[:, :], "layout": lambda: pc.to_channels_first(copy=True),
             "append": lambda: pc.to_channels_last(copy=True)}[how]()
        get = lambda c: [getattr(c, v) for v in views]
    if how == "detach":
        ctx.ok("detached-cut", not any(x.requires_grad for x in get(o)), "%s.detach(): %s still attached" % (obj, [v for v, x in zip(views, get(o)) if x.requires_grad] if obj == "frames" else "a view"))
    else:
        ctx.ok("copy-attached", all(x.requires_grad for x in get(o)), "%s %s: %s lost the gradient path" % (obj, how, [v for v, x in zip(views, get(o)) if not x.requires_grad] if obj == "frames" else "a view"))
        g = torch.autograd.grad(sum((x * torch.rand_like(x)).sum() for x in get(o)), [x for l in leaf.values() for x in l], allow_unused=True, retain_graph=True)
        ctx.ok("copy-attached", all(x is not None and torch.isfinite(x).all() and x.abs().sum() > 0 for x in g), "%s %s: an input gets no gradient" % (obj, how))
    ctx.ok("original-still-attached", all(x.requires_grad for x in get(pc)), "%s: original lost its gradient path after %s" % (obj, how))
    g = torch.autograd.grad(sum((x * torch.rand_like(x)).sum() for x in get(pc)), [x for l in leaf.values() for x in l], allow_unused=True)
    ctx.ok("original-still-attached", all(x is not None and x.abs().sum() > 0 for x in g), "%s: an input of the original gets no gradient after %s" % (obj, how))
    ctx.state(obj, how, tuple(sorted(leaf)))


CHECK = Check("C16", [
    Family("maps", quiet(maps), 200, 4000),
    Family("conversion", quiet(conversion), 200, 4000),
    Family("fusion", quiet(fusion), 100, 2000),
    Family("icp", quiet(icp), 120, 2500),
    Family("trajectory", quiet(trajectory), 60, 1000),
    Family("geometry", quiet(geometry), 150, 2500),
    Family("attachment", quiet(attachment), 200, 3000),
], require=["gradient-equals-finite-difference", "gradient-finite", "gradient-exists", "detached-cut", "copy-attached", "original-still-attached", "gradient-reaches-every-frame",
            "directions-nonzero:depth", "directions-nonzero:rgb", "directions-nonzero:intrinsics", "directions-nonzero:poses", "directions-nonzero:src", "directions-nonzero:init"],
    rule="case = one scene differentiated with respect to every input; distinct = (operation chain, shapes, options, layout)",
    assumptions=["judged in double precision; directions in which a discrete choice changes within the difference step are skipped and counted",
                 "depth perturbations only at pixels with valid depth"])
