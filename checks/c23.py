"""C23: no library call changes what it is given."""
import warnings

import numpy as np
import torch

from vlib import apicalls, gen, pcops, scene, snap
from vlib.core import Check, Family, Skip
from vlib.pcmodel import ATTRS, random_model


def _call(ctx, c):
    return c.run()


def functions(ctx):
    rng = ctx.rng
    g = apicalls.CATALOGUE[ctx.index % len(apicalls.CATALOGUE)]
    for _ in range(3):
        v = apicalls.V(rng)
        c = g(rng, v)
        ctx.set(call=c.name, dtype=str(v.dtype), grad=v.grad, strided=v.strided)
        ctx.log(c.name, str(v.dtype), "grad" if v.grad else "", "strided" if v.strided else "")
        ctx.count("call:" + c.name)
        snaps = {k: snap.Snapshot(x) for k, x in c.args.items() if k not in c.change}
        first = c.run()
        for k, s in snaps.items():
            d = s.differences()
            ctx.ok("argument-untouched", not d, lambda: "%s changed its argument %s: %s" % (c.name, k, "; ".join(d[:4])), key="functions/argument-untouched/" + c.name.split("(")[0])
        if not c.change:
            keep = snap.clone_value(first)
            again = c.run()
            ctx.ok("same-answer-twice", snap.same(strip(keep), strip(again), 1e-6, 1e-7), lambda: "%s: calling it again with the same arguments gives another result" % c.name, key="functions/same-answer-twice/" + c.name.split("(")[0])
            ctx.ok("result-not-overwritten", snap.same(strip(keep), strip(first), 0, 0) or snap.same(strip(keep), strip(first), 1e-6, 1e-7), lambda: "%s: the first result changed when it was called again" % c.name)
            for k, s in snaps.items():
                ctx.ok("argument-untouched", not s.differences(), lambda: "%s (second call) changed its argument %s" % (c.name, k))
        ctx.state(c.name, str(v.dtype), v.grad, v.strided)


def strip(x):
    """results are compared by value: gradient bookkeeping aside"""
    if torch.is_tensor(x):
        return x.detach()
    if isinstance(x, (list, tuple)):
        return type(x)(strip(y) for y in x) if type(x) in (list, tuple) else [strip(y) for y in x]
    if isinstance(x, dict):
        return {k: strip(y) for k, y in x.items()}
    return x.detach() if snap.kind(x) else x



class Watch:
    """objects that belong to the caller, and what they looked like when handed over"""

    def __init__(self, ctx, monitor):
        self.ctx, self.monitor, self.items = ctx, monitor, []

    def add(self, label, x):
        self.items.append((label, snap.Snapshot(x)))
        return x

    def drop(self, x):
        self.items = [(l, s) for l, s in self.items if s.x is not x]

    def check(self, what):
        for label, s in self.items:
            d = s.differences()
            if not self.ctx.ok(self.monitor, not d, lambda: "%s changed %s: %s" % (what, label, "; ".join(d[:4])), key="%s/%s/%s" % (self.ctx.fam, self.monitor, what.split("(")[0])):
                return False
        return True


def cloud_history(ctx):
    """in-place histories on a batch never reach the tensors it was built from, the operands, or objects derived from it"""
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    v = apicalls.V(rng, grads=False)
    w = Watch(ctx, "caller-values-untouched")
    m = random_model(rng, B=int(rng.integers(1, 4)), dtype=v.dtype, ragged=bool(rng.random() < .7), zmin=.6 if rng.random() < .4 else None)
    padded = len(set(m.sizes())) == 1 and rng.random() < .6
    given = {a: v.t(np.stack([c[a] for c in m.clouds])) if padded else [v.t(c[a]) for c in m.clouds] for a in m.attrs}
    w.add("the constructor's tensors", given)
    pc = Pointclouds(**given)
    ctx.set(model=str(m.sizes()), padded=padded, dtype=str(v.dtype))
    sig = []
    for step in range(int(rng.integers(3, 9))):
        k = rng.random()
        if k < .4:
            name, out, m2, inplace = pcops.arith(rng, pc, m)
            t = pcops.LAST["operand"]
            if t is not None:
                ctx.ok("operand-untouched", bool(torch.equal(t, pcops.LAST["before"])), lambda: "%s changed its operand" % name, key="cloud_history/operand-untouched/" + name.split("(")[0])
                w.add("the operand of " + name, t)
            if not inplace:
                # from here on either the old or the new batch is worked on; the other is the caller's
                if rng.random() < .5:
                    w.add("the batch %s was computed from" % name, pc)
                    pc, m = out, m2
                else:
                    w.add("the result of " + name, out)
            else:
                m = m2
        elif k < .6:
            name, m, val = pcops.assign(rng, pc, m)
            w.add("the value assigned by " + name, val)
        elif k < .75:
            o = random_model(rng, B=m.B, attrs=list(m.attrs), dtype=v.dtype, C=m.clouds[0]["features"].shape[1] if "features" in m.attrs else None)
            other = v.pc(o)
            name = "append_points"
            w.add("the batch appended", other)
            out, m = pcops.append(rng, pc, m, other, o)
        elif k < .85:
            name, out, m2 = pcops.index(rng, pc, m)
            if rng.random() < .5:
                w.add("the batch %s was taken from" % name, pc)
                pc, m = out, m2
            else:
                w.add("the result of " + name, out)
        else:
            name = str(rng.choice(["clone", "detach", "to(copy)", "views"]))
            if name == "views":
                for a in m.attrs:
                    getattr(pc, a + "_padded"), getattr(pc, a + "_list")
                pc.nonpad_mask
            else:
                out = pc.clone() if name == "clone" else pc.detach() if name == "detach" else pc.to("cpu", copy=True)
                if name == "detach":
                    pc = out                # detach may share memory with its source
                elif rng.random() < .5:
                    w.add("the batch that was copied by " + name, pc)
                    pc = out
                else:
                    w.add("the copy made by " + name, out)
        ctx.log(name)
        sig.append(name.split("(")[0])
        if not w.check(name):
            return
    ctx.state(*sig[:4])


def frames_history(ctx):
    """the same for image batches"""
    from gradslam.structures.rgbdimages import RGBDImages
    rng = ctx.rng
    v = apicalls.V(rng, grads=False)
    w = Watch(ctx, "caller-values-untouched")
    r = gen.rgbd(rng, dtype=v.dtype, poses=True)
    cf = bool(rng.random() < .5)
    t = r.tensors(cf)
    given = [v.t(x.numpy()) for x in t]
    if rng.random() < .3:
        b, l, h, ww = r.shape
        py, px = np.meshgrid(np.arange(h), np.arange(ww), indexing="ij")
        pp = np.broadcast_to(np.stack([px, py, np.ones_like(px)], -1), (b, l, h, ww, 3))
        given.append(v.t(pp))
    w.add("the constructor's tensors", given)
    x = RGBDImages(*given[:4], channels_first=cf, **(dict(pixel_pos=given[4]) if len(given) > 4 else {}))
    ctx.set(shape=str(r.shape), channels_first=cf, dtype=str(v.dtype))
    sig = []
    for step in range(int(rng.integers(3, 9))):
        k = rng.random()
        if k < .3:
            name = str(rng.choice(["to_channels_first_", "to_channels_last_"]))
            getattr(x, name)()
        elif k < .5:
            a = str(rng.choice(["rgb_image", "depth_image", "intrinsics", "poses"]))
            name = "%s=" % a
            old = getattr(x, a)
            val = w.add("the value assigned by " + name, v.t(old.detach().numpy() * 1.1 if a != "poses" else gen.rigids(rng, tuple(old.shape[:2]))))
            setattr(x, a, val)
        elif k < .65:
            name = "views"
            x.vertex_map, x.normal_map, x.global_vertex_map, x.global_normal_map, x.valid_depth_mask
        else:
            name = str(rng.choice(["clone", "to(copy)", "to_channels_first(copy)", "to_channels_last(copy)", "index"]))
            b, l = x.shape[:2]
            out = {"clone": lambda: x.clone(), "to(copy)": lambda: x.to("cpu", copy=True), "to_channels_first(copy)": lambda: x.to_channels_first(copy=True), "to_channels_last(copy)": lambda: x.to_channels_last(copy=True),
                   "index": lambda: x[int(rng.integers(0, b)), int(rng.integers(0, l))] if rng.random() < .5 else x[:, slice(0, int(rng.integers(1, l + 1)))]}[name]()
            if rng.random() < .5:
                w.add("the frames %s was applied to" % name, x)
                x = out
            else:
                w.add("the result of " + name, out)
        ctx.log(name)
        sig.append(name)
        if not w.check(name):
            return
    ctx.state(cf, *sig[:4])


def mapping_history(ctx):
    """a mapping loop: only what is updated in place may change, and never the frames' own images or earlier maps"""
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    v = apicalls.V(rng, grads=False)
    L = int(rng.integers(2, 5))
    r = scene.sequence(rng, int(rng.integers(1, 3)), L, 6, 7, v.dtype)
    w = Watch(ctx, "caller-values-untouched")
    cf = bool(rng.random() < .3)
    given = [v.t(t.numpy()) for t in r.tensors(cf)]
    from gradslam.structures.rgbdimages import RGBDImages
    x = RGBDImages(*given, channels_first=cf)
    w.add("the tensors of the frames", given)
    w.add("the sequence", x)
    odom = str(rng.choice(["gt", "icp", "gradicp"]))
    fusion = bool(rng.random() < .6)
    inplace = bool(rng.random() < .5)
    slam = (PointFusion if fusion else ICPSLAM)(odom=odom, dsratio=1, numiters=2)
    ctx.set(odom=odom, fusion=fusion, inplace=inplace, frames=L, channels_first=cf, dtype=str(v.dtype))
    pc, prev = Pointclouds(), None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i in range(L):
            live = x[:, i]
            images = w.add("the images of frame %d" % i, [live.rgb_image, live.depth_image, live.intrinsics])
            if prev is not None:
                w.add("the previous frame", prev)
            if not inplace:
                w.add("the live frame", live)
                w.add("the map handed to step %d" % i, pc)
            out, poses = slam.step(pc, live, prev, inplace=inplace)
            if inplace and i:
                ctx.ok("in-place-returns-the-map", out is pc, "step(inplace=True) returned another map", key="mapping_history/in-place-returns-the-map")
            w.add("the poses returned by step %d" % i, poses)
            if not w.check("step(%s, inplace=%s)" % (odom, inplace)):
                return
            pc = out
            prev = live if odom != "gt" else None
            if prev is not None and not inplace:
                prev = live.clone()
                prev.poses = poses
        ctx.count("steps", L)
    ctx.state(odom, fusion, inplace, L, cf)


def configs(ctx):
    """configuration calls leave the configuration and the values handed to them alone"""
    import copy
    import io
    from gradslam.config import CfgNode
    from vlib import cfgmodel as M
    rng = ctx.rng
    d = M.tree(rng, literal_strings=False)
    src = copy.deepcopy(d)
    a = CfgNode(d)
    ctx.ok("argument-untouched", M.same(d, src), "CfgNode() changed the dict it was built from", key="configs/constructor")
    other = a.clone()
    paths = [p for p, x in M.paths(M.plain(a)) if not isinstance(x, dict)]
    for p in paths:
        if rng.random() < .5:
            old = M.get(other, p)
            node = other
            for k in p[:-1]:
                node = node[k]
            node[p[-1]] = old + old if isinstance(old, (list, tuple)) else old
    before = M.snapshot(other)
    a.merge_from_other_cfg(other)
    ctx.ok("argument-untouched", M.same_snapshot(other, before), "merge_from_other_cfg changed the configuration merged from", key="configs/merge_from_other_cfg")
    # what is merged in is copied: a later change to one tree does not show in the other
    mine = M.snapshot(a)
    for p in paths:
        node = other
        for k in p[:-1]:
            node = node[k]
        if isinstance(node[p[-1]], list):
            node[p[-1]].append(99)
    ctx.ok("no-shared-values", M.same_snapshot(a, mine), "a value merged from another configuration is shared with it", key="configs/no-shared-values")
    theirs = M.snapshot(other)
    for p in paths:
        node = a
        for k in p[:-1]:
            node = node[k]
        if isinstance(node[p[-1]], list):
            node[p[-1]].append(77)
    ctx.ok("no-shared-values", M.same_snapshot(other, theirs), "changing a merged configuration changes the one it was merged from", key="configs/no-shared-values")
    # merge from a list: the list and the values in it stay as they are
    opts = []
    for p in paths:
        x = M.get(M.plain(a), p)
        if isinstance(x, (list, tuple)) and rng.random() < .7:
            opts += [".".join(p), copy.deepcopy(x)] if not any("." in k for k in p) else []
    keep = copy.deepcopy(opts)
    a.merge_from_list(opts)
    ctx.ok("argument-untouched", M.same(opts, keep), "merge_from_list changed its list", key="configs/merge_from_list")
    for p in paths:
        node = a
        for k in p[:-1]:
            node = node[k]
        if isinstance(node[p[-1]], list):
            node[p[-1]].append(55)
    ctx.ok("argument-untouched", M.same(opts, keep), "changing the configuration changes the values of the list it was merged from", key="configs/merge_from_list")
    now = M.snapshot(a)
    a.dump(), str(a), repr(a), a.clone(), a.is_frozen(), copy.deepcopy(a)
    a.dump(stream=io.StringIO())
    ctx.ok("argument-untouched", M.same_snapshot(a, now), "dump / clone / str changed the configuration", key="configs/readers")
    ctx.state(len(paths), len(opts) > 0)


CHECK = Check("C23", [Family("functions", functions, 600, 6000), Family("cloud_history", cloud_history, 150, 2000), Family("frames_history", frames_history, 100, 1200),
                      Family("mapping_history", mapping_history, 60, 600), Family("configs", configs, 60, 600)],
              require=["argument-untouched", "same-answer-twice", "result-not-overwritten", "caller-values-untouched", "operand-untouched", "no-shared-values"],
              rule="one situation per call of the public API with its layout variant (dtype, strided, gradient flag), and per distinct operation history",
              assumptions=["views computed on first use (vertex maps, padded copies, pixel positions) may be cached inside the object: not a change a caller sees",
                           "in-place operations may change the object they are called on; detach() and plain indexing may share memory with their source"])
