"""C24: malformed arguments are rejected where they enter and leave no trace; edge arguments are accepted."""
import warnings

import numpy as np
import torch

from vlib import apicalls, gen, scene, snap
from vlib.core import Check, Family, Skip


def _short(n):
    return n.split("(")[0]


def malformed(ctx):
    rng = ctx.rng
    g = apicalls.CATALOGUE[ctx.index % len(apicalls.CATALOGUE)]
    v = apicalls.V(rng)
    c = g(rng, v)
    if not c.bad:
        raise Skip()
    ctx.set(call=c.name, dtype=str(v.dtype), grad=v.grad, strided=v.strided)
    ctx.count("call:" + c.name)
    twin = {k: snap.clone_value(x) for k, x in c.args.items()}
    order = rng.permutation(len(c.bad))[: (10 if ctx.tier == "quick" else 40)]
    for i in order:
        arg, label, value, exc = c.bad[i]
        snaps = {k: snap.Snapshot(x) for k, x in c.args.items()}
        vs = snap.Snapshot(value)
        what = "%s with %s: %s" % (c.name, arg, label)
        ctx.log(what)
        key = "malformed/%s/%s/%s" % (_short(c.name), arg, label)
        ctx.raises("malformed-rejected", exc, lambda: c.run(**{arg: value}), what, key=key)
        for k, s in list(snaps.items()) + [("the malformed value", vs)]:
            d = s.differences()
            ctx.ok("rejected-without-trace", not d, lambda: "%s: changed %s: %s" % (what, k, "; ".join(d[:4])), key=key + "/trace")
        ctx.state(c.name, arg, label)
    # the objects stay usable: the valid call now gives what it gives on objects no malformed call has seen
    got = c.run()
    want = c.run(**twin)
    ctx.ok("usable-afterwards", snap.same(strip(got), strip(want), 1e-4, 1e-5), lambda: "%s gives another result after malformed calls" % c.name, key="malformed/usable-afterwards/" + _short(c.name))


def strip(x):
    if torch.is_tensor(x):
        return x.detach()
    if isinstance(x, (list, tuple)):
        return type(x)(strip(y) for y in x) if type(x) in (list, tuple) else [strip(y) for y in x]
    if isinstance(x, dict):
        return {k: strip(y) for k, y in x.items()}
    return x.detach() if snap.kind(x) else x



# ------------------------------------------------------------------ edges of the documented domain
class Edge:
    """runs calls that are documented to be valid; any exception is a rejection of a valid argument"""

    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, what, fn):
        self.ctx.log(what)
        self.ctx.count("monitor:edge-accepted")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn()
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ctx.fail("edge-accepted", "%s: %s: %s (%s:%d)" % (what, type(e).__name__, e, tb.filename, tb.lineno), key="%s/edge-accepted/%s" % (self.ctx.fam, what.split(" [")[0]), stop=True)

    def ok(self, cond, msg):
        self.ctx.ok("edge-result", cond, msg, key="%s/edge-result/%s" % (self.ctx.fam, msg.split(" [")[0]))

    def finite(self, what, *ts):
        for t in ts:
            self.ok(bool(torch.isfinite(t).all()), what + " not finite")


def empty_maps(ctx):
    """the empty map, maps with empty elements, frames without depth"""
    from gradslam.slam import fusionutils as fu
    from gradslam.structures.pointclouds import Pointclouds
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    rng, e = ctx.rng, Edge(ctx)
    v = apicalls.V(rng, grads=False)
    b = int(rng.integers(1, 4))
    kind = str(rng.choice(["empty-map", "some-elements-empty", "all-elements-empty", "no-depth", "one-row", "one-column", "one-pixel"]))
    hw = dict([("one-row", (1, int(rng.integers(2, 6)))), ("one-column", (int(rng.integers(2, 6)), 1)), ("one-pixel", (1, 1))]).get(kind, (int(rng.integers(2, 6)), int(rng.integers(2, 6))))
    r = gen.rgbd(rng, B=b, L=1, h=hw[0], w=hw[1], poses=True, dtype=v.dtype, missing="none" if kind.startswith("one") else None)
    if kind == "no-depth":
        gone = rng.random(b) < .6
        gone[int(rng.integers(0, b))] = True
        r.depth[gone] = 0
    x = v.rgbd(r)
    ctx.set(kind=kind, batch=b, size=hw, dtype=str(v.dtype))
    npix = [int((r.depth[k] > 0).sum()) for k in range(b)]
    c = e.call("pointclouds_from_rgbdimages [%s]" % kind, lambda: pointclouds_from_rgbdimages(x))
    e.ok(c.num_points_per_pointcloud.tolist() == npix, "pointclouds_from_rgbdimages: number of points [%s]" % kind)
    if kind in ("some-elements-empty", "all-elements-empty"):
        n = [0 if kind[0] == "a" or rng.random() < .5 else int(rng.integers(1, 6)) for _ in range(b)]
    elif kind == "empty-map":
        n = None
    else:
        n = [int(rng.integers(1, 6)) for _ in range(b)]

    def make(feats):
        if n is None:
            return Pointclouds()
        N = [rng.normal(size=(k, 3)) for k in n]
        return Pointclouds([v.t(rng.normal(size=(k, 3))) for k in n], [v.t(q / (np.linalg.norm(q, axis=-1, keepdims=True) + 1e-9)) for q in N], [v.t(rng.random((k, 3))) for k in n], [v.t(rng.random((k, 1)) + .5) for k in n] if feats else None)
    pc = make(True)
    t = e.call("find_active_map_points [%s]" % kind, lambda: fu.find_active_map_points(pc, x))
    e.ok(t.dtype == torch.int64 and t.ndim == 2 and t.shape[1] == 4, "find_active_map_points: table of shape %s" % (tuple(t.shape),))
    if n is None or sum(n) == 0:
        e.ok(len(t) == 0, "find_active_map_points: rows for a map without points [%s]" % kind)
    t2, mask = e.call("find_similar_map_points [%s]" % kind, lambda: fu.find_similar_map_points(pc, x, t, .1, .5))
    e.ok(mask.dtype == torch.bool and len(mask) == len(t) and t2.shape[1] == 4, "find_similar_map_points: form of the result")
    t3 = e.call("find_best_unique_correspondences [%s]" % kind, lambda: fu.find_best_unique_correspondences(pc, x, t2))
    e.ok(t3.dtype == torch.int64 and t3.shape[1] == 4, "find_best_unique_correspondences: form of the result")
    none = torch.zeros(0, 4, dtype=torch.int64)
    ip = bool(rng.random() < .5)
    m = e.call("fuse_with_map [%s, no rows]" % kind, lambda: fu.fuse_with_map(make(True), x, none, .6, ip))
    e.ok(m.num_points_per_pointcloud.tolist() == [(0 if n is None else n[k]) + npix[k] for k in range(b)], "fuse_with_map without correspondences: number of points [%s]" % kind)
    m = e.call("update_map_fusion [%s]" % kind, lambda: fu.update_map_fusion(pc, x, .1, .5, .6, ip))
    e.finite("update_map_fusion", m.points_padded, m.normals_padded, m.colors_padded, m.features_padded)
    pa = make(False)
    m = e.call("update_map_aggregate [%s]" % kind, lambda: fu.update_map_aggregate(pa, x, ip))
    e.ok(m.num_points_per_pointcloud.tolist() == [(0 if n is None else n[k]) + npix[k] for k in range(b)], "update_map_aggregate: number of points [%s]" % kind)
    ctx.state(kind, b, ip)


def small_images(ctx):
    """one-pixel rows, columns and images, one-frame sequences, absent poses"""
    from gradslam.odometry.icputils import downsample_rgbdimages
    rng, e = ctx.rng, Edge(ctx)
    v = apicalls.V(rng, grads=False)
    b, l = int(rng.integers(1, 3)), int(rng.choice([1, 1, 2]))
    hw = [(1, 1), (1, int(rng.integers(2, 7))), (int(rng.integers(2, 7)), 1), (2, 2)][int(rng.integers(0, 4))]
    poses = bool(rng.random() < .6)
    r = gen.rgbd(rng, B=b, L=l, h=hw[0], w=hw[1], poses=poses, dtype=v.dtype)
    cf = bool(rng.random() < .4)
    x = e.call("RGBDImages() [%s]" % (hw,), lambda: v.rgbd(r, cf))
    ctx.set(size=hw, batch=b, frames=l, poses=poses, channels_first=cf)
    want = (b, l, 3) + hw if cf else (b, l) + hw + (3,)
    for a in ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map"):
        y = e.call("RGBDImages.%s [%s%s]" % (a, hw, "" if poses else ", no poses"), lambda: getattr(x, a))
        e.ok(tuple(y.shape) == want, "%s: shape [%s]" % (a, hw))
        e.finite(a, y)
    if not poses:
        e.ok(x.has_poses is False and x.poses is None, "poses of frames without poses")
        e.ok(bool(torch.equal(x.vertex_map, x.global_vertex_map)), "global vertex map without poses")
    i, j = int(rng.integers(0, b)), int(rng.integers(0, l))
    y = e.call("RGBDImages[] [%s]" % (hw,), lambda: x[i, j])
    e.ok(tuple(y.shape) == (1, 1) + hw, "RGBDImages[i, j]: shape")
    for name, f in (("clone", lambda: x.clone()), ("detach", lambda: x.detach()), ("to", lambda: x.to("cpu", copy=True)), ("to_channels_first", lambda: x.to_channels_first()), ("to_channels_last", lambda: x.to_channels_last())):
        z = e.call("RGBDImages.%s [%s%s]" % (name, hw, "" if poses else ", no poses"), f)
        e.ok(z.shape == x.shape and z.has_poses == poses, "RGBDImages.%s: shape" % name)
    k = int(rng.integers(1, 9))
    one = v.rgbd(r.sub(slice(None), slice(0, 1)), cf)
    p = e.call("downsample_rgbdimages [ratio %s the image]" % ("over" if k > max(hw) else "within"), lambda: downsample_rgbdimages(one, k))
    e.ok(p.num_points_per_pointcloud.tolist() == [int((r.depth[q, 0, ::k, ::k] > 0).sum()) for q in range(b)], "downsample_rgbdimages: number of points")
    ctx.state(hw, b, l, poses, cf)


def small_clouds(ctx):
    """the empty batch, clouds without points, single points, absent attributes"""
    from gradslam.structures.pointclouds import Pointclouds
    rng, e = ctx.rng, Edge(ctx)
    v = apicalls.V(rng, grads=False)
    kind = str(rng.choice(["empty-batch", "no-points-padded", "no-points-list", "one-point", "points-only", "some-empty"]))
    b = int(rng.integers(1, 4))
    C = int(rng.integers(1, 4))
    attrs = ["points"] + ([] if kind == "points-only" else [a for a in apicalls.ATTRS[1:] if rng.random() < .5])
    n = {"no-points-padded": [0] * b, "no-points-list": [0] * b, "one-point": [1] * b, "some-empty": [int(k) for k in rng.integers(0, 3, b)]}.get(kind, [int(k) for k in rng.integers(1, 5, b)])
    ctx.set(kind=kind, batch=b, sizes=n, attrs=attrs)
    val = {a: [rng.normal(size=(k, C if a == "features" else 3)) for k in n] for a in attrs}
    if kind == "empty-batch":
        pc = e.call("Pointclouds()", lambda: Pointclouds())
        e.ok(len(pc) == 0 and not pc.has_points and not pc.has_normals and not pc.has_colors and not pc.has_features and pc.points_list is None and pc.points_padded is None, "views of the empty batch")
        o = v.pc(apicalls.random_model(rng, B=b, dtype=v.dtype))
    else:
        pad = kind == "no-points-padded" or (len(set(n)) == 1 and rng.random() < .4)
        pc = e.call("Pointclouds(...) [%s]" % kind, lambda: Pointclouds(**{a: v.t(np.stack(q)) if pad else [v.t(y) for y in q] for a, q in val.items()}))
        e.ok(len(pc) == b and pc.num_points_per_pointcloud.tolist() == n, "number of points [%s]" % kind)
        o = pc.clone()
    T, R = v.t(gen.rigid(rng)), v.t(gen.rotation(rng))
    ops = [("+", lambda p: p + 1.5), ("- tensor", lambda p: p - v.t(rng.normal(size=3))), ("*", lambda p: p * 2), ("/", lambda p: p / 2.0), ("offset_", lambda p: p.clone().offset_(1.0)), ("scale_", lambda p: p.clone().scale_(2)), ("rotate", lambda p: p.rotate(R)), ("transform", lambda p: p.transform(T)),
           ("@", lambda p: p @ T), ("pinhole_projection", lambda p: p.pinhole_projection(v.t(np.eye(4)))), ("clone", lambda p: p.clone()), ("detach", lambda p: p.detach()), ("to", lambda p: p.to("cpu", copy=True)), ("cpu", lambda p: p.cpu())]
    for name, f in ops:
        q = e.call("Pointclouds %s [%s]" % (name, kind), lambda: f(pc))
        e.ok(isinstance(q, Pointclouds) and len(q) == len(pc) and q.num_points_per_pointcloud.tolist() == pc.num_points_per_pointcloud.tolist(), "Pointclouds %s: sizes [%s]" % (name, kind))
        e.ok([q.has_points, q.has_normals, q.has_colors, q.has_features] == [pc.has_points, pc.has_normals, pc.has_colors, pc.has_features], "Pointclouds %s: attributes [%s]" % (name, kind))
    if kind != "empty-batch":
        q = e.call("Pointclouds[] [%s]" % kind, lambda: pc[int(rng.integers(0, b))])
        e.ok(len(q) == 1, "Pointclouds[i]: batch size")
        for a in attrs:
            y = e.call("Pointclouds.%s_padded [%s]" % (a, kind), lambda: getattr(pc, a + "_padded"))
            e.ok(tuple(y.shape) == (b, max(n), C if a == "features" else 3), "%s_padded: shape [%s]" % (a, kind))
        e.call("Pointclouds.points_list = [%s]" % kind, lambda: setattr(pc, "points_list", [v.t(y) for y in val["points"]]))
        e.call("Pointclouds.points_padded = [%s]" % kind, lambda: setattr(pc, "points_padded", pc.points_padded + 0))
    before = pc.num_points_per_pointcloud.tolist() if len(pc) else [0] * len(o)
    q = e.call("append_points [%s]" % kind, lambda: pc.append_points(o))
    e.ok(q.num_points_per_pointcloud.tolist() == [i + j for i, j in zip(before, o.num_points_per_pointcloud.tolist())], "append_points: sizes [%s]" % kind)
    q2 = e.call("append_points of an empty batch", lambda: q.append_points(Pointclouds()))
    e.ok(q2.num_points_per_pointcloud.tolist() == q.num_points_per_pointcloud.tolist(), "append_points of an empty batch: sizes")
    ctx.state(kind, b, len(attrs), tuple(n))


def short_runs(ctx):
    """one-frame sequences, first steps, optional arguments left out"""
    from gradslam.odometry import icputils as u
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    from gradslam.structures.pointclouds import Pointclouds
    rng, e = ctx.rng, Edge(ctx)
    v = apicalls.V(rng, grads=False)
    odom = str(rng.choice(["gt", "icp", "gradicp"]))
    fusion = bool(rng.random() < .5)
    hw = [(6, 7), (5, 5), (1, 6), (1, 1)][int(rng.integers(0, 4 if odom == "gt" else 2))]
    L = 1 if rng.random() < .6 else 2
    b = int(rng.choice([1, 1, 2]))
    r = scene.sequence(rng, b, L, hw[0], hw[1], v.dtype)
    slam = e.call("%s() [%s]" % ("PointFusion" if fusion else "ICPSLAM", odom), lambda: (PointFusion if fusion else ICPSLAM)(odom=odom, dsratio=1, numiters=1))
    x = v.rgbd(r)
    ctx.set(odom=odom, fusion=fusion, size=hw, frames=L, batch=b)
    what = "PointFusion" if fusion else "ICPSLAM"
    pc, poses = e.call("%s(frames) [%s, %s, %d frames]" % (what, odom, hw, L), lambda: slam(x))
    e.ok(tuple(poses.shape) == (b, L, 4, 4) and len(pc) == b, "%s: form of the result" % what)
    e.finite(what, poses, pc.points_padded)
    ip = bool(rng.random() < .5)
    first = e.call("%s.step without prev_frame [%s, inplace %s]" % (what, odom, ip), lambda: slam.step(Pointclouds(), x[:, 0].clone(), inplace=ip))
    e.ok(tuple(first[1].shape) == (b, 1, 4, 4), "step: form of the poses")
    e.call("%s.step with prev_frame None on a map [%s]" % (what, odom), lambda: slam.step(first[0].clone(), x[:, 0].clone(), None))
    nop = gen.Rgbd(r.rgb, r.depth, r.K, None, r.dtype)
    if odom != "gt":
        q, p = e.call("%s(frames without poses) [%s, %s]" % (what, odom, hw), lambda: slam(v.rgbd(nop)))
        e.ok(tuple(p.shape) == (b, L, 4, 4), "%s without poses: form of the poses" % what)
        e.ok(bool(torch.isclose(p[:, 0].double(), torch.eye(4).double(), atol=1e-6).all()), "%s without poses: the first pose is not the identity" % what)
    # registration with optional arguments left out or given as plain numbers
    s, t, n = apicalls._pair(rng, v)
    for name, f in (("point_to_plane_ICP", lambda **k: u.point_to_plane_ICP(s, t, n, **k)), ("point_to_plane_gradICP", lambda **k: u.point_to_plane_gradICP(s, t, n, **k))):
        T, _ = e.call("%s [initial_transform None]" % name, lambda: f(initial_transform=None, numiters=1))
        e.ok(tuple(T.shape) == (4, 4), "%s: shape" % name)
        e.call("%s [dist_thresh int]" % name, lambda: f(initial_transform=v.t(np.eye(4)), numiters=1, dist_thresh=9))
        e.call("%s [dist_thresh float]" % name, lambda: f(initial_transform=v.t(np.eye(4)), numiters=1, dist_thresh=9.0))
    ctx.state(odom, fusion, hw, L, b, ip)


CHECK = Check("C24", [Family("malformed", malformed, 700, 8000), Family("empty_maps", empty_maps, 80, 1000), Family("small_images", small_images, 80, 1000),
                      Family("small_clouds", small_clouds, 80, 1000), Family("short_runs", short_runs, 40, 400)],
              require=["malformed-rejected", "rejected-without-trace", "usable-afterwards", "edge-accepted", "edge-result"],
              rule="one situation per (call, argument, kind of malformation) and per kind of edge argument",
              assumptions=["only arguments whose type or shape the function or its documentation fixes are malformed",
                           "operators reject foreign operands with the not-implemented error they document, functions that assert their arguments with an assertion error"])
