"""C28: an optional argument left out means its published default, given by position or by keyword."""
import os
import tempfile
import warnings

import numpy as np
import torch

from vlib import apicalls, dsets as DS, gen, icpmodel as IM, mapmodel, scene, snap
from vlib.core import Check, Family, Skip
from vlib.pcmodel import ATTRS, random_model

D = torch.float64


def plain(x):
    """result as nested plain data, exact"""
    k = snap.kind(x)
    if k == "pc":
        return {a: plain(getattr(x, a + "_list")) for a in ATTRS}
    if k:
        return {a: plain(getattr(x, a)) for a in ("rgb_image", "depth_image", "intrinsics", "poses", "channels_first", "device")}
    if torch.is_tensor(x):
        return (tuple(x.shape), str(x.dtype), x.detach().numpy().tobytes())
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {str(a): plain(b) for a, b in x.items()}
    if hasattr(x, "to_plotly_json"):
        return plain(x.to_plotly_json())
    if type(x).__module__.startswith(("vlib", "verif", "open3d")):
        return plain(vars(x))
    return x


class Case:
    """name, call(**kw) on fresh operands, published defaults in positional order, other values to
    show that the argument matters, names that can only be given by keyword"""

    def __init__(self, name, call, defaults, other, kwonly=()):
        self.name, self.call, self.defaults, self.other, self.kwonly = name, call, dict(defaults), dict(other), set(kwonly)


def wild_pair(rng):
    tgt, nrm = IM.random_cloud(rng, int(rng.integers(12, 40)))
    src, _ = IM.random_cloud(rng, int(rng.integers(12, 40)))
    return [torch.tensor(v, dtype=D) for v in (src, tgt, nrm)]


LM = dict(lambda_max=2.0, B=1.0, B2=1.0, nu=200.0)
LM2 = dict(lambda_max=3.0, B=2.0, B2=.5, nu=100.0)
IC = dict(numiters=20, damp=1e-8, dist_thresh=None)
IC2 = dict(numiters=19, damp=1e-4, dist_thresh=.3)


def icp_functions(rng):
    from gradslam.odometry import icputils as U
    s, t, n = wild_pair(rng)
    k = int(rng.integers(0, 4))
    init = torch.tensor(gen.rigid(rng), dtype=D)
    if k == 0:
        return Case("point_to_plane_ICP", lambda *a, **kw: U.point_to_plane_ICP(s[None].clone(), t[None].clone(), n[None].clone(), *a, **kw),
                    dict(initial_transform=None, **IC), dict(initial_transform=init, **IC2))
    if k == 1:
        return Case("point_to_plane_gradICP", lambda *a, **kw: U.point_to_plane_gradICP(s[None].clone(), t[None].clone(), n[None].clone(), *a, **kw),
                    dict(initial_transform=None, **IC, **LM), dict(initial_transform=init, **IC2, **LM2))
    if k == 2:
        return Case("gauss_newton_solve", lambda *a, **kw: U.gauss_newton_solve(s[None], t[None], n[None], *a, **kw), dict(dist_thresh=None), dict(dist_thresh=.3))
    A, b = torch.tensor(rng.normal(size=(9, 6))), torch.tensor(rng.normal(size=(9, 1)))
    return Case("solve_linear_system", lambda *a, **kw: U.solve_linear_system(A, b, *a, **kw), dict(damp=1e-8), dict(damp=1e-7))


def providers(rng):
    from gradslam.odometry.gradicp import GradICPOdometryProvider
    from gradslam.odometry.icp import ICPOdometryProvider
    from gradslam.structures.pointclouds import Pointclouds
    p = [wild_pair(rng) for _ in range(int(rng.integers(1, 3)))]

    def use(prov):
        return prov.provide(Pointclouds([x[1] for x in p], [x[2] for x in p]), Pointclouds([x[0] for x in p]))
    if rng.random() < .5:
        return Case("ICPOdometryProvider", lambda *a, **kw: use(ICPOdometryProvider(*a, **kw)), IC, IC2)
    return Case("GradICPOdometryProvider", lambda *a, **kw: use(GradICPOdometryProvider(*a, **kw)), dict(IC, **LM), dict(IC2, **LM2))


def slam(rng):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    r = scene.sequence(rng, 1, 2, int(rng.integers(14, 20)), int(rng.integers(14, 20)), D, step_t=.05, step_r=.05)
    r.depth = r.depth * rng.uniform(.97, 1.03, r.depth.shape)
    cls = ICPSLAM if rng.random() < .5 else PointFusion
    defaults = dict(odom="gradicp", dsratio=4, **IC, **LM, device=None)
    other = dict(odom="gt", dsratio=3, **IC2, **LM2)
    other["dist_thresh"] = .02
    if cls is PointFusion:
        defaults.update(dist_th=.05, angle_th=20, sigma=.6)
        other.update(dist_th=.01, angle_th=2, sigma=.5)
    return Case(cls.__name__, lambda **kw: cls(**kw)(r.build()), defaults, other, kwonly=list(defaults))


def slam_step(rng):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    from gradslam.structures.pointclouds import Pointclouds
    r = scene.sequence(rng, 1, 2, 8, 9, D)
    s = (ICPSLAM if rng.random() < .5 else PointFusion)(odom=str(rng.choice(["gt", "icp", "gradicp"])), dsratio=2, numiters=2)

    def call(*a, **kw):
        x = r.build()
        pc, p = s.step(Pointclouds(), x[:, 0])
        live = x[:, 1]
        kw = {k: (x[:, 0] if b == "previous" else b) for k, b in kw.items()}
        out, q = s.step(pc, live, *[x[:, 0] if b == "previous" else b for b in a], **kw)
        return out, q, pc, live.poses, out is pc
    return Case("step", call, dict(prev_frame=None, inplace=False), dict(prev_frame="previous", inplace=True))


def fusion(rng):
    from gradslam.slam import fusionutils as F
    k = int(rng.integers(0, 6))
    dim3 = torch.tensor(rng.normal(size=(3, 3, 3)))
    if k == 0:
        return Case("get_alpha", lambda *a, **kw: F.get_alpha(dim3 * 4, .6, *a, **kw), dict(dim=-1, keepdim=False, eps=1e-7), dict(dim=0, keepdim=True, eps=1e-3))
    if k == 1:
        return Case("are_points_close", lambda *a, **kw: F.are_points_close(dim3, dim3.roll(1, 0), 1.5, *a, **kw), dict(dim=-1), dict(dim=1))
    if k == 2:
        n = torch.nn.functional.normalize(dim3, dim=-1)
        return Case("are_normals_similar", lambda *a, **kw: F.are_normals_similar(n, n.roll(1, 0), .3, *a, **kw), dict(dim=-1), dict(dim=1))
    r = mapmodel.surface_rgbd(rng, B=int(rng.integers(1, 3)), L=1, dtype=D)
    fr = mapmodel.frames_of(r)
    els = [mapmodel.map_for_frame(rng, f) for f in fr]

    def call(f, feats):
        def run(*a, **kw):
            pc, x = mapmodel.build_map(els, D, features=feats), r.build()
            out = f(pc, x, *a, **kw)
            return out, pc, out is pc
        return run
    if k == 3:
        return Case("update_map_fusion", call(lambda pc, x, *a, **kw: F.update_map_fusion(pc, x, .1, .5, .6, *a, **kw), True), dict(inplace=False), dict(inplace=True))
    if k == 4:
        return Case("update_map_aggregate", call(lambda pc, x, *a, **kw: F.update_map_aggregate(pc, x, *a, **kw), False), dict(inplace=False), dict(inplace=True))

    def fuse(pc, x, *a, **kw):
        return F.fuse_with_map(pc, x, F.find_correspondences(pc, x, .1, .5), .6, *a, **kw)
    return Case("fuse_with_map", call(fuse, True), dict(inplace=False), dict(inplace=True))


def clouds(rng):
    from gradslam.structures.pointclouds import Pointclouds
    m = random_model(rng, B=int(rng.integers(1, 4)), dtype=D)
    v = apicalls.V(rng, dtype=D, grads=False)
    R, T = v.t(gen.rotation(rng)), v.t(gen.rigid(rng))
    k = int(rng.integers(0, 6))
    if k == 0:
        n = [int(x) for x in rng.integers(1, 6, int(rng.integers(1, 4)))]
        mk = lambda c: [torch.tensor(rng.normal(size=(i, c))) for i in n]
        p, o = mk(3), dict(normals=mk(3), colors=mk(3), features=mk(2))
        if rng.random() < .3:
            return Case("Pointclouds", lambda *a, **kw: Pointclouds(*a, **kw), dict(points=None, normals=None, colors=None, features=None, device=None), dict(points=p))
        return Case("Pointclouds", lambda *a, **kw: Pointclouds(p, *a, **kw), dict(normals=None, colors=None, features=None, device=None), o)
    fixed = v.pc(m, "list")
    pc = lambda: fixed.clone()
    if k == 1:
        f = str(rng.choice(["rotate", "transform", "rotate_", "transform_"]))
        M = R if f.startswith("rot") else T
        return Case("Pointclouds." + f, lambda *a, **kw: getattr(pc(), f)(M, *a, **kw), dict(pre_multiplication=True), dict(pre_multiplication=False), kwonly=["pre_multiplication"])
    if k == 2:
        def to(*a, **kw):
            x = pc()
            y = x.to("cpu", *a, **kw)
            return y, y is x
        return Case("Pointclouds.to", to, dict(copy=False), dict(copy=True))
    i = int(rng.integers(0, m.B))
    full = lambda: Pointclouds([torch.tensor(c["points"], dtype=D) for c in m.clouds], colors=[torch.tensor(np.abs(c["points"])) for c in m.clouds], normals=[torch.tensor(c["points"]) for c in m.clouds])
    if k == 3:
        return Case("Pointclouds.open3d", lambda *a, **kw: full().open3d(i, *a, **kw), dict(include_colors=True, max_num_points=None, include_normals=False), dict(include_colors=False, max_num_points=1, include_normals=True))
    if k == 4 and rng.random() < .2:
        big = 200000 + int(rng.choice([-1, 0, 1, 7]))
        x = Pointclouds([torch.linspace(0, 1, big * 3).reshape(big, 3)])
        return Case("Pointclouds.plotly-large", lambda *a, **kw: len(x.plotly(0, True, *a, as_figure=False, **kw).x), dict(max_num_points=200000), dict(max_num_points=200001, ))
    return Case("Pointclouds.plotly", lambda *a, **kw: full().plotly(i, *a, **kw), dict(include_colors=True, max_num_points=200000, as_figure=True, point_size=2),
                dict(include_colors=False, max_num_points=1, as_figure=False, point_size=3))


def images(rng):
    from gradslam.structures.rgbdimages import RGBDImages
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    b, l = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    r = gen.rgbd(rng, B=b, L=l, h=3, w=3, poses=True, dtype=D, missing="some" if rng.random() < .5 else None)
    r.depth.reshape(-1)[0] = 0
    rgb, depth, K, P = [torch.tensor(x, dtype=D) for x in (r.rgb, r.depth, r.K, r.poses)]
    k = int(rng.integers(0, 5))
    if k == 0:
        # 3 x 3 images of 3 channels can be read in both layouts
        rgb3 = torch.tensor(rng.uniform(0, 255, (b, l, 3, 3, 3)))
        ok = lambda kw: torch.tensor(rng.random((b, l, 3, 3, 1)))

        def make(*a, **kw):
            names = ["poses", "channels_first", "device", "pixel_pos"]
            g = dict(zip(names, a)); g.update(kw)
            d = torch.ones((b, l, 1, 3, 3) if g.get("channels_first") else (b, l, 3, 3, 1), dtype=D)
            x = RGBDImages(rgb3, d, K, *a, **kw)
            return x.rgb_image, x.depth_image, x.intrinsics, x.poses, x.channels_first, x.has_poses, x.vertex_map, x.global_vertex_map, x.pixel_pos
        pp = torch.ones(b, l, 3, 3, 3, dtype=D)
        return Case("RGBDImages", make, dict(poses=None, channels_first=False, device=None, pixel_pos=None), dict(poses=P, channels_first=True, pixel_pos=pp), kwonly=["pixel_pos"])
    cf = bool(rng.random() < .5)
    if k == 1:
        f = str(rng.choice(["to", "to_channels_first", "to_channels_last"]))
        a0 = ("cpu",) if f == "to" else ()

        def to(*a, **kw):
            x = r.build(f == "to_channels_first")
            y = getattr(x, f)(*a0, *a, **kw)
            return y, y is x
        return Case("RGBDImages." + f, to, dict(copy=False), dict(copy=True))
    if k == 2:
        i = int(rng.integers(0, b))
        return Case("RGBDImages.plotly", lambda *a, **kw: r.build(cf).plotly(i, *a, **kw), dict(include_depth=True, as_figure=True, ms_per_frame=50), dict(include_depth=False, as_figure=False, ms_per_frame=51))
    one = r.sub(slice(None), slice(0, 1))
    return Case("pointclouds_from_rgbdimages", lambda *a, **kw: pointclouds_from_rgbdimages(one.build(cf), *a, **kw), dict(global_coordinates=True, filter_missing_depths=True),
                dict(global_coordinates=False, filter_missing_depths=False), kwonly=["global_coordinates", "filter_missing_depths"])


def helpers(rng):
    from gradslam.structures import structutils as S
    from gradslam.geometry import geometryutils as G, projutils as P
    from gradslam.datasets import datautils
    k = int(rng.integers(0, 12))
    t = lambda *s: torch.tensor(rng.normal(size=s))
    if k == 0:
        xs = [t(int(i), 3) for i in rng.integers(1, 6, 3)]
        xs[0] = t(6, 3)
        return Case("list_to_padded", lambda *a, **kw: S.list_to_padded(xs, *a, **kw), dict(pad_size=None, pad_value=0.0, equisized=False), dict(pad_size=(8, 4), pad_value=-1.0))
    if k == 1:
        x = t(2, 5, 3)
        return Case("padded_to_list", lambda *a, **kw: S.padded_to_list(x, *a, **kw), dict(split_size=None), dict(split_size=[2, 3]))
    if k == 2:
        im = rng.integers(0, 256, (24, 32, 3)).astype(np.uint8)
        return Case("numpy_to_plotly_image", lambda *a, **kw: S.numpy_to_plotly_image(im, *a, **kw), dict(name=None, is_depth=False, scale=None, quality=95), dict(name="x", quality=60, scale=10))
    if k == 3:
        im = rng.integers(0, 256, (24, 32, 3)).astype(np.uint8)
        return Case("img_to_b64str", lambda *a, **kw: S.img_to_b64str(im, *a, **kw), dict(quality=95), dict(quality=60))
    if k == 4:
        h = t(4, 3); h[0, -1] = 5e-7; h[1, -1] = 2e-6; h[2, -1] = -5e-7
        g = G if rng.random() < .5 else P
        return Case("unhomogenize_points" + (".g" if g is G else ".p"), lambda *a, **kw: g.unhomogenize_points(h, *a, **kw), dict(eps=1e-6), dict(eps=1e-3))
    if k == 5:
        q = t(3, 4) * 1e-11
        return Case("normalize_quaternion", lambda *a, **kw: G.normalize_quaternion(q, *a, **kw), dict(eps=1e-12), dict(eps=1e-9))
    if k == 6:
        a0, a1 = t(2, 4, 4), torch.tensor(gen.rigids(rng, (2,)))
        a0 = torch.tensor(gen.rigids(rng, (2,)))
        a0[:, :3, :3] *= 1.01        # not a rotation: the two ways differ
        return Case("relative_transformation", lambda *a, **kw: G.relative_transformation(a0, a1, *a, **kw), dict(orthogonal_rotations=False), dict(orthogonal_rotations=True))
    if k == 7:
        return Case("create_meshgrid", lambda *a, **kw: G.create_meshgrid(4, 5, *a, **kw), dict(normalized_coords=True), dict(normalized_coords=False))
    if k == 8:
        c = t(1, 4, 5, 3); c[..., 2] = torch.tensor(rng.choice([1e-6, 1e-7, 2e-5], (1, 4, 5)))
        M = torch.eye(4, dtype=D)[None]
        return Case("cam2pixel_KF", lambda *a, **kw: G.cam2pixel_KF(c, M, *a, **kw), dict(eps=1e-6), dict(eps=1e-3))
    if k == 9:
        c = t(4, 3); c[:, 2] = torch.tensor([5e-7, 2e-6, 1.0, -5e-7])
        K = torch.eye(4, dtype=D)
        return Case("project_points", lambda *a, **kw: P.project_points(c, K, *a, **kw), dict(eps=1e-6), dict(eps=1e-3))
    if k == 10:
        K = torch.tensor(gen.intrinsics(rng, 8, 8)); K[0, 0] = 1e-3
        return Case("inverse_intrinsics", lambda *a, **kw: P.inverse_intrinsics(K, *a, **kw), dict(eps=1e-6), dict(eps=1e-4))
    q = np.concatenate([rng.normal(size=3), rng.normal(size=4) * 1e-6])
    return Case("pointquaternion_to_homogeneous", lambda *a, **kw: datautils.pointquaternion_to_homogeneous(q, *a, **kw), dict(eps=1e-12), dict(eps=1e-3))


def configs(rng):
    from gradslam.config import CfgNode
    k = int(rng.integers(0, 2))
    if k == 0:
        def merge(*a, **kw):
            c = CfgNode(*a, **kw)
            c.KNOWN = 1
            o = CfgNode(); o.NEW = 2
            try:
                c.merge_from_other_cfg(o)
            except KeyError:
                return dict(c), "refused"
            return dict(c), "merged"
        return Case("CfgNode", merge, dict(init_dict=None, key_list=None, new_allowed=False), dict(init_dict={"A": 1}, new_allowed=True))

    def renamed(*a, **kw):
        c = CfgNode()
        c.register_renamed_key("OLD", "NEWNAME", *a, **kw)
        try:
            c.merge_from_list(["OLD", 1])
        except Exception as e:
            return type(e).__name__, str(e)
    return Case("register_renamed_key", renamed, dict(message=None), dict(message="use the other"))


GROUPS = [icp_functions, providers, slam, slam_step, fusion, clouds, images, helpers, configs]


def judge(ctx, c):
    rng = ctx.rng
    names = list(c.defaults)

    def run(*a, **kw):
        torch.manual_seed(5)
        np.random.seed(5)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return plain(c.call(*a, **kw))
    explicit = run(**c.defaults)
    bare = run()
    ctx.ok("left-out-is-default", bare == explicit, "%s: leaving out %s is not passing %s" % (c.name, names, c.defaults), key="left-out-is-default/" + c.name)
    if len(names) > 1:
        kept = [n for n in names if rng.random() < .5]
        ctx.ok("left-out-is-default", run(**{n: c.defaults[n] for n in kept}) == explicit, "%s: leaving out %s is not passing %s" % (c.name, [n for n in names if n not in kept], c.defaults),
               key="left-out-is-default/" + c.name)
    # the argument matters: another value changes the result (counted; not every drawn input is sensitive to every argument)
    vals = dict(c.defaults)
    for n in names:
        if n in c.other and rng.random() < .5:
            vals[n] = c.other[n]
    for n in names:
        if n in c.other and (vals[n] is not c.defaults[n]) and rng.random() < .6:
            if run(**dict(c.defaults, **{n: c.other[n]})) != explicit:
                ctx.count("sensitive:%s.%s" % (c.name, n))
    changed = run(**vals)
    free = [n for n in names if n not in c.kwonly]
    if free:
        k = int(rng.integers(1, len(free) + 1))
        got = run(*[vals[n] for n in names[:k]], **{n: vals[n] for n in names[k:]})
        ctx.ok("position-is-keyword", got == changed, "%s: %s given by position differ from the same by keyword" % (c.name, names[:k]), key="position-is-keyword/" + c.name)
    order = [names[i] for i in rng.permutation(len(names))]
    ctx.ok("keyword-order-irrelevant", run(**{n: vals[n] for n in order if n in vals}) == changed, "%s: another keyword order gives another result" % c.name, key="keyword-order/" + c.name)
    ctx.count("call:" + c.name)
    ctx.set(call=c.name, values={n: str(v)[:40] for n, v in vals.items()})
    ctx.state(c.name, tuple(n for n in names if vals[n] is not c.defaults[n]))


def calls(ctx):
    judge(ctx, GROUPS[ctx.index % len(GROUPS)](ctx.rng))


def readers(ctx):
    """dataset readers: published defaults, on folders long enough for them to matter"""
    rng = ctx.rng
    kind = ["ICL", "TUM", "Scannet"][ctx.index % 3]
    flags = dict(return_depth=True, return_intrinsics=True, return_pose=True, return_transform=True, return_names=True)
    with DS.Scratch() as root:
        n = int(rng.integers(9, 12))
        common = dict(height=480, width=640, channels_first=False, normalize_color=False, **flags)
        oc = dict(height=240, width=320, channels_first=True, normalize_color=True, **{k: False for k in flags})
        if kind == "Scannet":
            from gradslam.datasets.scannet import Scannet
            n = 2
            base, meta = os.path.join(root, "s"), os.path.join(root, "m")
            sc = ["scene0001_00", "scene0002_00"]
            for i, s in enumerate(sc):
                DS.scannet(rng, base, meta, s, i, n, 6, 8, textured=True, t=i)
            mk = lambda **kw: Scannet(base, meta, None, **kw)
            d = dict(start=0, end=-1, seg_classes="scannet20", return_labels=True, **common)
            o = dict(start=1, end=1, seg_classes="nyu40", return_labels=False, **oc)
            small = dict(height=4, width=5)
        else:
            if kind == "ICL":
                from gradslam.datasets.icl import ICL as cls
                nm = [DS.icl(rng, root, k, n, 6, 8, textured=True, t=i)[0] for i, k in enumerate("12")]
                d, o = dict(common, trajectories=None), dict(oc, trajectories=(nm[0],))
            else:
                from gradslam.datasets.tum import TUM as cls
                nm = [DS.tum(rng, root, "1_s%d" % i, n, 6, 8, textured=True, t=i)[0] for i in range(2)]
                d, o = dict(common, sequences=None, return_timestamps=True), dict(oc, sequences=(nm[0],), return_timestamps=False)
            d.update(seqlen=4, dilation=None, stride=None, start=None, end=None)
            o.update(seqlen=3, dilation=1, stride=2, start=1, end=8)
            mk = lambda **kw: cls(root, **kw)
            small = dict(height=4, width=5)

        def run(**kw):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ds = mk(**kw)
                return len(ds), [plain(ds[int(i)]) for i in sorted({0, len(ds) - 1})] if len(ds) else []
        # full-size pictures are slow: one comparison with the published size, the rest small
        ctx.ok("left-out-is-default", run() == run(**d), "%s: leaving everything out is not passing %s" % (kind, d), key="left-out-is-default/" + kind)
        explicit = run(**dict(d, **small))
        for _ in range(3):
            kept = {k: v for k, v in d.items() if rng.random() < .5}
            kept.update(small)
            ctx.ok("left-out-is-default", run(**kept) == explicit, "%s: leaving out %s is not passing %s" % (kind, [k for k in d if k not in kept], d), key="left-out-is-default/" + kind)
        for k in rng.permutation(list(d))[:4]:
            if k in o and run(**dict(dict(d, **small), **{k: o[k]})) != explicit:
                ctx.count("sensitive:%s.%s" % (kind, k))
        ctx.count("call:" + kind)
        ctx.set(kind=kind, frames=n)
        ctx.state(kind, n)


CHECK = Check("C28", [Family("calls", calls, 450, 9000), Family("readers", readers, 24, 300)],
              require=["left-out-is-default", "position-is-keyword", "keyword-order-irrelevant"],
              rule="one situation per (call, set of optional arguments given another value than the default)",
              assumptions=["published defaults are those of the documentation, or of the signature at the pinned commit where the documentation gives none",
                           "calls are repeated with the same random state; results are compared exactly"])
