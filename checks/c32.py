"""C32: everything stays on its device, seen by a device sanitizer (vlib/devsim.py)."""
import warnings

import numpy as np
import torch

from checks.c30 import flat
from checks.c31 import Layout, same
from vlib import apicalls, devsim, gen, scene, snap
from vlib.core import Check, Family, Skip
from vlib.pcmodel import ATTRS, random_model

warnings.simplefilter("ignore")
F, D = torch.float32, torch.float64
CPU = torch.device("cpu")
DEVICES = [torch.device("cuda", 0), torch.device("cuda", 1), torch.device("cuda", 3)]
TOL = 1e-6
G = [g for g in apicalls.CATALOGUE if g.__name__ != "g_meshgrid"]
HEAVY = [g for g in G if any(w in g.__name__ for w in ("slam", "icp", "map", "provider", "fuse", "corresp"))]
MOVERS = ("to", "cpu", "to_copy", "cuda")


def there(x, d):
    """an argument on device d (with the caches it has)"""
    if torch.is_tensor(x):
        if x.requires_grad and x.is_leaf:
            return devsim.tag(x.detach().clone().requires_grad_(), d)
        return x.to(d)
    if snap.kind(x):
        y = snap.clone_object(x)
        for t in snap.tensors_of(y):
            devsim.tag(t, d)
        y.device = d
        return y
    if isinstance(x, list):
        return [there(y, d) for y in x]
    if isinstance(x, tuple):
        return tuple(there(y, d) for y in x)
    if isinstance(x, dict):
        return {k: there(v, d) for k, v in x.items()}
    return x


def off(x, d):
    """the tensors of a value that are on other devices than d"""
    out = ["%s on %s" % (tuple(t.shape), devsim.where(t)) for t in snap.tensors_of(x) if torch.is_tensor(t) and devsim.where(t) != d]
    for y in x if isinstance(x, (list, tuple)) else [x]:
        if snap.kind(y) and y.device != d:
            out.append("%s.device says %s" % (type(y).__name__, y.device))
    return out


def about_devices(e):
    m = str(e).lower()
    return isinstance(e, devsim.Mixed) or "device" in m or "convert cuda" in m


def observe(ctx, name, key, fn):
    """the call, with what torch would refuse on real devices reported"""
    try:
        return True, fn()
    except Exception as e:
        if about_devices(e):
            ctx.ok("one-device-suffices", False, "%s with everything on one device: %s: %.200s" % (name, type(e).__name__, e), key=key)
            return False, None
        raise


def counted(ctx, m):
    ctx.count("operations on pretended devices", m.accelerated)
    ctx.count("tensors made on pretended devices", m.made)
    ctx.count("tensors moved between devices", m.moved)


# ------------------------------------------------------------------ every call of the catalogue
def calls(ctx):
    """arguments on one device: nothing is combined across devices, results are on that device and equal those on the CPU"""
    rng = ctx.rng
    devsim.install()
    g = G[ctx.index % len(G)]
    if rng.random() < .2:
        g = HEAVY[int(rng.integers(0, len(HEAVY)))]
    seed = int(rng.integers(0, 2 ** 31))
    dtype = D if rng.random() < .5 else F
    grad = bool(rng.random() < .25)

    def make():
        v = Layout(seed, dtype)
        v.grad = grad
        return g(np.random.default_rng([seed, 9]), v)
    ref, c = make(), make()
    if ref.random or ref.name.startswith(("ICPSLAM(", "PointFusion(")) or ref.name.split(".")[-1] in MOVERS:       # (see moving and slam)
        raise Skip()
    ctx.set(call=ref.name, dtype=str(dtype), grad=grad)
    want = flat([ref.fn(**ref.args), {k: ref.args[k] for k in ref.change}])
    d = DEVICES[int(rng.integers(0, len(DEVICES)))]
    with devsim.Devices() as m:
        args = {k: there(v, d) for k, v in c.args.items()}
        ok, r = observe(ctx, ref.name, "calls/%s/one-device" % ref.name, lambda: c.fn(**args))
    counted(ctx, m)
    if not ok:
        return
    ctx.ok("one-device-suffices", True)
    ctx.ok("results-on-the-device", not off(r, d), lambda: "%s with arguments on %s gives %s" % (ref.name, d, off(r, d)[:3]), key="calls/%s/result" % ref.name)
    for k, x in args.items():
        ctx.ok("arguments-stay-on-the-device", not off(x, d), lambda: "%s leaves its argument %s (%s) with %s" % (ref.name, k, d, off(x, d)[:3]), key="calls/%s/arg" % ref.name)
    with devsim.Devices():      # (views are made on demand)
        got = flat([r, {k: args[k] for k in c.change}])
    e = same(want, got, TOL)
    ctx.ok("values-as-on-the-cpu", not e, lambda: "%s on %s and on the CPU: %s" % (ref.name, d, e), key="calls/%s/values" % ref.name)
    # what the results show when asked again is on the device as well
    with devsim.Devices() as m:
        for y in r if isinstance(r, (list, tuple)) else [r]:
            k = snap.kind(y)
            if not k:
                continue
            for n in snap.PC_VIEWS if k == "pc" else snap.RG_VIEWS:
                if n in ("global_vertex_map", "global_normal_map") and y.poses is None:
                    continue
                ok, t = observe(ctx, "%s of the result of %s" % (n, ref.name), "calls/%s/%s" % (ref.name, n), lambda: getattr(y, n))
                if ok:
                    ctx.ok("results-on-the-device", not off(t, d), lambda: "%s of the result of %s: %s" % (n, ref.name, off(t, d)[:2]), key="calls/%s/%s" % (ref.name, n))
    ctx.state(ref.name, str(dtype), grad, str(d))


# ------------------------------------------------------------------ structures moved around
def spelled(rng, d):
    """a device as a caller may write it"""
    k = rng.random()
    return d if k < .4 else str(d) if k < .8 or d.index not in (None, 0) else d.type


def pc_views(pc, rng, every=True):
    return [n for n in snap.PC_VIEWS if every or rng.random() < .3]


def check_object(ctx, o, d, views, what, key):
    ctx.ok("moved-whole", o.device == d and not off(o, d), lambda: "%s: device %s, held: %s (expected all on %s)" % (what, o.device, off(o, d)[:3], d), key=key + "/held")
    for n in views:
        ok, t = observe(ctx, "%s of %s" % (n, what), key + "/" + n, lambda: getattr(o, n))
        if ok:
            ctx.ok("moved-whole", not off(t, d), lambda: "%s: %s is %s (expected all on %s)" % (what, n, off(t, d)[:2], d), key=key + "/" + n)


def moving(ctx):
    """containers moved from device to device, with some caches built: to, cpu, cuda, constructors, setters, append, index, clone"""
    from gradslam.structures.pointclouds import Pointclouds
    from gradslam.structures.rgbdimages import RGBDImages
    rng = ctx.rng
    devsim.install()
    kind = "pc" if rng.random() < .55 else "rgbd"
    v = apicalls.V(rng, grads=False)
    v.strided = False
    here = [CPU] + DEVICES[:2]
    d = here[int(rng.integers(0, 3))]
    with devsim.Devices() as m:
        if kind == "pc":
            mod = random_model(rng, dtype=v.dtype, B=int(rng.integers(1, 4)))
            how = "padded" if len(set(mod.sizes())) == 1 and rng.random() < .5 else "list"
            # the device of a cloud is the one asked for, or else that of the points it is given
            src = here[int(rng.integers(0, 3))]
            asked = rng.random() < .4
            kw = {}
            for a in ATTRS:
                if a not in mod.attrs:
                    continue
                s = src if a == "points" or asked and rng.random() < .8 or rng.random() < .7 else here[int(rng.integers(0, 3))]
                kw[a] = there(v.t(np.stack([c[a] for c in mod.clouds]), mod.dtype) if how == "padded" else [v.t(c[a], mod.dtype) for c in mod.clouds], s)
            before = {a: [devsim.where(t) for t in snap.tensors_of(t0)] for a, t0 in kw.items()}
            if asked:
                o = Pointclouds(device=spelled(rng, d), **kw)
            else:
                o, d = Pointclouds(**kw), src
            for a, t0 in kw.items():
                ctx.ok("original-stays", [devsim.where(t) for t in snap.tensors_of(t0)] == before[a], "Pointclouds() moved the tensors it was given", key="moving/pc/given")
            views = snap.PC_VIEWS
            ref = Pointclouds(**{a: there(t0, CPU) if torch.is_tensor(t0) else [there(t, CPU) for t in t0] for a, t0 in kw.items()})
            frames = None
        else:
            frames = gen.rgbd(rng, B=int(rng.integers(1, 3)), L=int(rng.integers(1, 4)), h=int(rng.integers(1, 6)), w=int(rng.integers(1, 6)), dtype=v.dtype, poses=bool(rng.random() < .7))
            ref = v.rgbd(frames)
            src = here[int(rng.integers(0, 3))]
            parts = {"rgb_image": ref.rgb_image, "depth_image": ref.depth_image, "intrinsics": ref.intrinsics}
            if ref.poses is not None:
                parts["poses"] = ref.poses
            if rng.random() < .4:       # pixel positions of one's own
                parts["pixel_pos"] = v.t(rng.uniform(0, 5, tuple(int(k) for k in ref.shape[:4]) + (3,)), v.dtype)
            kw = dict(channels_first=ref.channels_first)
            ref = RGBDImages(**parts, **kw)
            parts = {k: there(t, src) for k, t in parts.items()}
            # frames given in parts on several devices are refused
            if src != d and rng.random() < .3:
                j = str(rng.choice(list(parts)))
                bad = dict(parts, **{j: there(parts[j], d)})
                ctx.raises("mixed-parts-refused", (ValueError,), lambda: RGBDImages(**bad, **kw), "RGBDImages() with %s on another device" % j)
            if rng.random() < .5:
                o = RGBDImages(**parts, **kw, device=spelled(rng, d))
            else:
                o, d = RGBDImages(**parts, **kw), src
            ctx.ok("original-stays", all(devsim.where(t) == src for t in parts.values()), "RGBDImages() moved the tensors it was given", key="moving/rgbd/given")
            views = [n for n in snap.RG_VIEWS if o.poses is not None or not n.startswith("global_")]
        check_object(ctx, o, d, [], "a new %s" % type(o).__name__, "moving/%s/new" % kind)
        seen = []
        for _ in range(int(rng.integers(2, 6))):
            for n in views:     # some caches
                if rng.random() < .25:
                    observe(ctx, "%s of a %s on %s" % (n, type(o).__name__, d), "moving/%s/%s" % (kind, n), lambda: getattr(o, n))
            act = str(rng.choice(["to", "to", "to", "cpu", "cuda", "clone", "detach", "index"]))
            old, od = o, d
            if act == "to":
                copy = bool(rng.random() < .4)
                d = (here + [DEVICES[2]])[int(rng.integers(0, 4))]
                o = old.to(spelled(rng, d), copy=True) if copy else old.to(spelled(rng, d))
                what = "to(%s%s) from %s" % (d, ", copy=True" if copy else "", od)
                if d == od and not copy:
                    ctx.ok("same-device-same-object", o is old, "%s.%s gives another object" % (type(o).__name__, what), key="moving/%s/same" % kind)
                else:
                    ctx.ok("move-makes-a-copy", o is not old and not shared(o, old), lambda: "%s.%s shares memory with the original" % (type(o).__name__, what), key="moving/%s/copy" % kind)
            elif act in ("cpu", "cuda"):
                d = CPU if act == "cpu" else DEVICES[0]
                o = getattr(old, act)()
                what = "%s() from %s" % (act, od)
            elif act == "index":
                o = old[int(rng.integers(0, len(old)))] if rng.random() < .5 else old[0:1]
                what = "indexing on %s" % od
                ref = None
            elif act == "detach" and kind == "rgbd" and not hasattr(old, "detach"):
                continue
            else:
                o = getattr(old, act)()
                what = "%s() on %s" % (act, od)
            ctx.set(kind=kind, last=what)
            seen.append(act)
            if o is not old:
                ctx.ok("original-stays", old.device == od and not off(old, od), lambda: "%s.%s: the original is now %s / %s" % (type(o).__name__, what, old.device, off(old, od)[:3]), key="moving/%s/original/%s" % (kind, act))
            check_object(ctx, o, d, [n for n in views if rng.random() < .3], "a %s after %s" % (type(o).__name__, what), "moving/%s/%s" % (kind, act))
            if rng.random() < .4 and kind == "pc" and ref is not None:
                other = here[int(rng.integers(0, 3))]
                u = rng.random()
                if u < .4:      # appending: the same device, or refused
                    more = o.clone()
                    if other != d:
                        w = more.to(other)
                        ctx.raises("mixed-append-refused", (ValueError,), lambda: o.append_points(w), "append_points of a cloud on %s to one on %s" % (other, d))
                    else:
                        o.append_points(more)
                        ref.append_points(ref.clone())
                elif u < .7:    # a padded representation: the same device, or refused
                    a = str(rng.choice([x for x in mod.attrs]))
                    t = getattr(o, a + "_padded").clone()
                    if other != d:
                        w = t.to(other)
                        ctx.raises("mixed-setter-refused", (ValueError,), lambda: setattr(o, a + "_padded", w), "%s_padded on %s for a cloud on %s" % (a, other, d))
                    else:
                        setattr(o, a + "_padded", t)
                else:           # lists are taken to the device of the cloud
                    a = str(rng.choice([x for x in mod.attrs]))
                    w = [t.to(other) for t in getattr(o, a + "_list")]
                    setattr(o, a + "_list", w)
                    ctx.ok("original-stays", all(devsim.where(t) == other for t in w), "the %s_list given was moved" % a, key="moving/pc/list-given")
                check_object(ctx, o, d, [n for n in views if rng.random() < .3], "a changed Pointclouds", "moving/pc/changed")
        check_object(ctx, o, d, views, "a %s after %s" % (type(o).__name__, seen), "moving/%s/end" % kind)
    counted(ctx, m)
    if ref is not None:
        with devsim.Devices():
            got = flat(o)
        e = same(flat(ref), got, TOL)
        ctx.ok("values-as-on-the-cpu", not e, lambda: "a %s after %s: %s" % (type(o).__name__, seen, e), key="moving/%s/values" % kind)
    ctx.state(kind, tuple(sorted(set(seen))), str(d))


def shared(a, b):
    pa = {t.untyped_storage().data_ptr() for t in snap.tensors_of(a) if t.numel()}
    return pa & {t.untyped_storage().data_ptr() for t in snap.tensors_of(b) if t.numel()}


# ------------------------------------------------------------------ gradients across devices
def gradients(ctx):
    """moving is differentiable: gradients reach the tensors on the device they came from, as on the CPU"""
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    devsim.install()
    d = DEVICES[int(rng.integers(0, 3))]
    dtype = D
    if rng.random() < .5:
        mod = random_model(rng, dtype=dtype)
        ctx.set(kind="pc")

        def run(dev, e):
            xs = [torch.tensor(c["points"], dtype=dtype, requires_grad=True) for c in mod.clouds]
            extra = {a: [torch.tensor(c[a], dtype=dtype) for c in mod.clouds] for a in mod.attrs if a != "points"}
            pc = Pointclouds(xs, **extra, **({"device": dev} if e else {}))
            pc = pc if e else pc.to(dev)
            y = ((pc * 1.5 + .25).points_padded ** 2).sum()
            y = y.cpu()
            y.backward()
            return [x.grad for x in xs]
    else:
        fr = gen.rgbd(rng, B=1, L=int(rng.integers(1, 3)), h=3, w=4, dtype=dtype, poses=True, missing=0.0)
        ctx.set(kind="rgbd")

        def run(dev, e):
            from gradslam.structures.rgbdimages import RGBDImages
            dep = torch.tensor(fr.depth[..., None], dtype=dtype, requires_grad=True)
            P = torch.tensor(fr.poses, dtype=dtype, requires_grad=True)
            x = RGBDImages(torch.tensor(fr.rgb, dtype=dtype), dep, torch.tensor(fr.K, dtype=dtype), P, **({"device": dev} if e else {}))
            x = x if e else x.to(dev)
            (x.global_vertex_map ** 2).sum().cpu().backward()
            return [dep.grad, P.grad]
    e = bool(rng.random() < .5)
    want = run(CPU, e)
    with devsim.Devices() as m:
        got = run(spelled(rng, d), e)
    counted(ctx, m)
    bad = same(flat(want), flat(got), TOL)
    ctx.ok("gradients-cross-devices", not bad, lambda: "gradient through a move to %s: %s" % (d, bad), key="gradients")
    ctx.state("grad", e, str(d))


# ------------------------------------------------------------------ SLAM
def slam(ctx):
    """SLAM on a device given frames on another: maps and poses are on the SLAM's device, the frames stay, the values are those of the CPU"""
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    devsim.install()
    odom = str(rng.choice(["gt", "icp", "gradicp"]))
    S = [ICPSLAM, PointFusion][int(rng.integers(0, 2))]
    dtype = D if rng.random() < .5 else F
    r = scene.sequence(rng, int(rng.integers(1, 3)), int(rng.integers(1, 4)), 6, 7, dtype)
    v = apicalls.V(rng, dtype=dtype, grads=False)
    v.strided = False
    x = v.rgbd(gen.Rgbd(r.rgb, r.depth, r.K, None, r.dtype) if odom != "gt" and rng.random() < .4 else r)
    kw = dict(odom=odom, dsratio=int(rng.integers(1, 3)), numiters=2)
    d = ([CPU] + DEVICES)[int(rng.integers(0, 4))]
    e = ([CPU] + DEVICES)[int(rng.integers(0, 4))]
    steps = bool(rng.random() < .4) and x.poses is not None
    ctx.set(slam=S.__name__, odom=odom, device=str(d), frames=str(e), steps=steps)
    ref = S(**kw)
    dev = {} if d == CPU and rng.random() < .5 else {"device": None if d == CPU and rng.random() < .3 else spelled(rng, d)}

    def run(s, frames, inplace):
        if not steps:
            return s(frames)
        pc, prev, poses = Pointclouds(device=s.device), None, []
        for i in range(frames.shape[1]):
            live = frames[:, i].to(s.device)
            pc, p = s.step(pc, live, prev, inplace=inplace)
            live.poses = p
            prev = live if s.odom != "gt" else None
            poses.append(p)
        return pc, torch.cat(poses, 1)
    inplace = bool(rng.random() < .5)
    want = flat(run(ref, x.clone(), inplace))
    with devsim.Devices() as m:
        s = S(**kw, **dev)
        fr = there(x, e)
        ctx.ok("slam-device", s.device == d, lambda: "%s(device=%s).device is %s" % (S.__name__, dev, s.device), key="slam/device")
        ok, out = observe(ctx, "%s(%s) on %s with frames on %s" % (S.__name__, odom, d, e), "slam/%s/%s" % (S.__name__, odom), lambda: run(s, fr, inplace))
    counted(ctx, m)
    if not ok:
        return
    ctx.ok("one-device-suffices", True)
    pc, poses = out
    ctx.ok("slam-results-on-its-device", not off(pc, d) and not off(poses, d), lambda: "%s(%s) on %s with frames on %s: map %s, poses %s" % (S.__name__, odom, d, e, off(pc, d)[:2], off(poses, d)), key="slam/%s/results" % S.__name__)
    ctx.ok("original-stays", not off(fr, e), lambda: "the frames given are now %s" % off(fr, e)[:3], key="slam/frames")
    with devsim.Devices():
        got = flat([pc, poses])
    bad = same(want, got, 1e-5 if dtype == F else 1e-9)
    ctx.ok("values-as-on-the-cpu", not bad, lambda: "%s(%s) on %s: %s" % (S.__name__, odom, d, bad), key="slam/%s/values" % S.__name__)
    ctx.state(S.__name__, odom, str(d), str(e), steps)


CHECK = Check("C32", [
    Family("calls", calls, 1300, 25000),
    Family("moving", moving, 700, 15000),
    Family("gradients", gradients, 100, 2000),
    Family("slam", slam, 160, 4000),
], require=["one-device-suffices", "results-on-the-device", "arguments-stay-on-the-device", "values-as-on-the-cpu", "moved-whole", "original-stays", "same-device-same-object", "move-makes-a-copy", "mixed-parts-refused", "mixed-append-refused",
            "mixed-setter-refused", "gradients-cross-devices", "slam-device", "slam-results-on-its-device"],
    rule="case = one catalogue call with its arguments on a pretended accelerator, a random walk of a container between devices, a gradient through a move, or a SLAM run on one device with frames on another; "
    "distinct = (call or structure, precision, devices, actions)",
    assumptions=["devices are pretended: the arithmetic runs on the CPU while a monitor tracks the device of every tensor and applies torch's rules for mixing them", "a value assigned to frames comes from the device of the frames"])
