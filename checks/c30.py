"""C30: results depend on the values given, not on how they are stored or on ambient modes."""
import contextlib

import numpy as np
import torch

from vlib import apicalls, snap
from vlib.core import Check, Family, Skip
from vlib.pcmodel import ATTRS

D, F = torch.float64, torch.float32


class Layout(apicalls.V):
    """the same values, laid out as asked for: how = subset of strided, grad, first (channels first)"""

    def __init__(self, seed, dtype=D, strided=False, grad=False, first=None, jitter=0.0, places=0):
        super().__init__(np.random.default_rng([seed, 1, places]), dtype=dtype, grads=False)
        self.crng = np.random.default_rng([seed, 2])
        self.strided, self.grad, self.first, self.jitter = strided, grad, first, jitter
        self.jrng = np.random.default_rng([seed, 3, int(jitter * 1e12)])

    def t(self, a, dtype=None, grad=None, strided=None):
        a = np.asarray(a)
        if self.jitter and a.dtype.kind == "f":
            a = a * (1 + self.jitter * self.jrng.choice([-1.0, 1.0], a.shape))
        return super().t(a, self.dtype if dtype in (D, F) else dtype, grad, strided)

    def rgbd(self, r, cf=None):
        cf = self.crng.random() < .3 if cf is None else cf
        return super().rgbd(r, cf if self.first is None else self.first)


def flat(x, path="", out=None):
    """result as {path: tensor / array / plain value}"""
    out = {} if out is None else out
    k = snap.kind(x)
    if k == "pc":
        out[path + ".clouds"] = len(x)
        for a in ATTRS:
            flat(getattr(x, a + "_list"), path + "." + a, out)
    elif k:
        for a in ("rgb_image", "depth_image", "intrinsics", "poses", "vertex_map", "normal_map") + (("global_vertex_map", "global_normal_map") if x.poses is not None else ()):
            flat(getattr(x, a), path + "." + a, out)
        out[path + ".channels_first"] = x.channels_first
    elif torch.is_tensor(x):
        out[path] = x.detach().clone() if not x.is_inference() else x.clone()
    elif isinstance(x, np.ndarray):
        out[path] = torch.tensor(np.ascontiguousarray(x)) if x.dtype != object else repr(x)
    elif isinstance(x, (list, tuple)):
        out[path + ".n"] = len(x)
        for i, y in enumerate(x):
            flat(y, "%s[%d]" % (path, i), out)
    elif isinstance(x, dict):
        out[path + ".keys"] = tuple(sorted(map(str, x)))
        for i, y in x.items():
            flat(y, "%s[%s]" % (path, i), out)
    elif isinstance(x, (int, float, str, bool, type(None))):
        out[path] = x
    else:
        out[path] = type(x).__name__
    return out


def has_frames(x):
    return snap.kind(x) == "rgbd" or isinstance(x, (list, tuple)) and any(has_frames(y) for y in x)


@contextlib.contextmanager
def default_dtype(d):
    old = torch.get_default_dtype()
    torch.set_default_dtype(d)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


def draw(gi, vs, **kw):
    with default_dtype(F):
        return apicalls.CATALOGUE[gi](np.random.default_rng([vs, gi]), Layout(vs, **kw))


def run(c, mode=None, dtype=F):
    torch.manual_seed(3)
    np.random.seed(3)
    with (mode or contextlib.nullcontext()), default_dtype(dtype):
        return flat(c.run())


def differ(a, b, tol, dtypes=True):
    """paths whose values differ by more than tol[path]"""
    if a.keys() != b.keys():
        return ["one gives %s, the other %s" % (sorted(set(a) - set(b))[:3], sorted(set(b) - set(a))[:3])]
    out = []
    for k, x in a.items():
        y = b[k]
        if torch.is_tensor(x) != torch.is_tensor(y):
            out.append("%s: %s and %s" % (k, x, y))
        elif not torch.is_tensor(x):
            if type(x) is not type(y) or (abs(x - y) > tol(k) * max(1, abs(x)) if isinstance(x, float) else x != y):
                out.append("%s: %r and %r" % (k, x, y))
        elif x.shape != y.shape:
            out.append("%s: shape %s and %s" % (k, tuple(x.shape), tuple(y.shape)))
        elif dtypes and x.dtype != y.dtype:
            out.append("%s: %s and %s" % (k, x.dtype, y.dtype))
        elif tol(k) is not None and x.numel():
            e = gap(x, y)
            if not e <= tol(k):
                out.append("%s: values %.3g apart" % (k, e))
    return out


def gap(x, y):
    """largest difference relative to the size of the array; inf for another pattern of non-finite values"""
    x, y = x.double(), y.double()
    if x.numel() == 0:
        return 0.0
    fx, fy = torch.isfinite(x), torch.isfinite(y)
    if not torch.equal(fx, fy) or not torch.equal(torch.nan_to_num(x[~fx], nan=7.0), torch.nan_to_num(y[~fy], nan=7.0)):
        return float("inf")
    if not fx.any():
        return 0.0
    return float((x[fx] - y[fy]).abs().max()) / max(1.0, float(x[fx].abs().max()))


def sensitivity(gi, vs, base, eps, times=2):
    """how far the double-precision result moves when the inputs move by eps (None: discrete change)"""
    s = {k: 0.0 for k in base}
    for again in range(times):
        b = run(draw(gi, vs, jitter=eps * (1 + .37 * again)))
        if b.keys() != base.keys():
            return None
        for k, x in base.items():
            if torch.is_tensor(x):
                if b[k].shape != x.shape or (not x.dtype.is_floating_point and not torch.equal(x, b[k])):
                    return None
                s[k] = max(s[k], gap(x, b[k]))
            elif isinstance(x, float):
                s[k] = max(s[k], abs(x - b[k]))
            elif x != b[k]:
                return None
    return s


def takes_floats(c):
    """whether the call is given floating-point values of its own (a grid made from two sizes has the default precision)"""
    return c.name != "create_meshgrid"


def storage(ctx):
    """memory layout, gradient bookkeeping, grad mode, default dtype, channel layout"""
    gi = ctx.index % len(apicalls.CATALOGUE)
    vs = int(ctx.rng.integers(0, 2 ** 31))
    c = draw(gi, vs)
    if not takes_floats(c):
        raise Skip("nothing with a precision is given")
    name = c.name.split("(")[0]
    base = run(c)
    registration = any(k in c.name for k in ("ICP", "gauss_newton", "SLAM", "PointFusion"))
    sens = sensitivity(gi, vs, base, 1e-7 if registration else 1e-10, 4 if registration else 2)
    ctx.set(call=c.name, sensitive=sens is None)
    if sens is None:
        ctx.count("result-jumps-nearby")
        raise Skip("the result is at a threshold")
    # rounding of another order of operations: far below 1e-13 of the operands
    tol = lambda k: None if sens[k] > 1e-3 else 1e-10 + 10 * sens[k]
    variants = [("other memory layout", "layout", dict(strided=True, places=int(ctx.rng.integers(0, 2 ** 31))), None, F),
                ("gradients tracked", "gradient-flag", dict(grad=True), None, F),
                ("gradients tracked under no_grad", "grad-mode", dict(grad=True), torch.no_grad(), F),
                ("inference mode", "grad-mode", {}, torch.inference_mode(), F),
                ("default dtype float64", "default-dtype", {}, None, D)]
    for what, mon, kw, mode, dd in variants:
        c2 = draw(gi, vs, **kw)
        got = run(c2, mode, dd)
        bad = differ(base, got, tol)
        ctx.ok(mon, not bad, lambda: "%s, %s: %s" % (c.name, what, "; ".join(bad[:3])), key="storage/%s/%s" % (mon, name))
        ctx.count("%s:%s" % (mon, c.name))
        ctx.state(c.name, what)
    if any(has_frames(x) for x in c.args.values()) and not any(k.endswith("channels_first") for k in base) and "RGBDImages" not in c.name:
        a, b = run(draw(gi, vs, first=False)), run(draw(gi, vs, first=True))
        bad = differ(a, b, tol)
        ctx.ok("channel-layout", not bad, lambda: "%s, frames stored channels first: %s" % (c.name, "; ".join(bad[:3])), key="storage/channel-layout/" + name)
        ctx.count("channel-layout:" + c.name)



# these deliver single precision whatever they are given
DATASET = {"pointquaternion_to_homogeneous", "scale_intrinsics", "normalize_image", "poses_to_transforms", "channels_first", "nyu40_to_scannet20", "create_label_image", "transform44"}


def precision(ctx):
    """single precision in, single precision out and near the double-precision answer; double stays double"""
    gi = ctx.index % len(apicalls.CATALOGUE)
    vs = int(ctx.rng.integers(0, 2 ** 31))
    c = draw(gi, vs)
    if not takes_floats(c):
        raise Skip("nothing with a precision is given")
    name = c.name.split("(")[0]
    base = run(c)
    ctx.set(call=c.name)
    floats = {k for k, x in base.items() if torch.is_tensor(x) and x.dtype == D}
    # a double-precision result is not single precision in disguise
    given = [x for a in c.args.values() for x in snap.tensors_of(a) if torch.is_tensor(x) and x.dtype == D]
    fine = bool(given) and all(bool((x.float().double() != x).any()) for x in given if x.numel() >= 6)
    for k in floats if fine else ():
        x = base[k]
        x = x[torch.isfinite(x) & (x != 0) & (x != 1) & (x != -1)]
        if x.numel() >= 6:
            ctx.ok("double-stays-double", bool((x.float().double() != x).any()), lambda: "%s: every value of %s is a single-precision number" % (c.name, k), key="precision/double-stays-double/" + name)
    if name not in DATASET:
        for dd in (F, D):
            b = base if dd == F else run(draw(gi, vs), None, D)
            single = [k for k, x in b.items() if torch.is_tensor(x) and x.dtype in (F, torch.float16)]
            ctx.ok("precision-kept", not single, lambda: "%s on double-precision tensors (default dtype %s): %s has type %s" % (c.name, dd, single[0], b[single[0]].dtype), key="precision/precision-kept/" + name)
    for dd in (F, D):
        c2 = draw(gi, vs, dtype=F)
        got = run(c2, None, dd)
        if not given or any((torch.is_tensor(x) and x.dtype == D) or (isinstance(x, np.ndarray) and x.dtype == np.float64) for a in c2.args.values() for x in snap.tensors_of(a)):
            raise Skip("an operand has a precision of its own")
        wrong = [k for k in floats if torch.is_tensor(got.get(k)) and got[k].dtype != F] + [k for k, x in base.items() if k not in floats and torch.is_tensor(x) and torch.is_tensor(got.get(k)) and got[k].dtype != x.dtype]
        ctx.ok("precision-kept", not wrong, lambda: "%s on single-precision tensors (default dtype %s): %s has type %s" % (c.name, dd, wrong[0], got[wrong[0]].dtype), key="precision/precision-kept/" + name)
    if any(k in c.name for k in ("ICP", "gauss_newton")):
        raise Skip("the conditioning of the registration problem decides (C09, C10 judge single precision there)")
    frames = [x for a in c.args.values() for x in (a if isinstance(a, (list, tuple)) else [a]) if snap.kind(x) == "rgbd"]
    if any(bool((x.depth_image == 0).any()) for x in frames) or c.name == "RGBDImages()" and bool((c.args["depth_image"] == 0).any()):
        raise Skip("normals beside a missing depth are directions of rounding errors")
    sens = sensitivity(gi, vs, base, 1e-5)
    if sens is None:
        ctx.count("result-jumps-nearby")
        raise Skip("the result is at a threshold")
    tol = lambda k: None if sens[k] > 1e-3 else 2e-4 + 3 * sens[k]
    bad = differ(base, got, tol, dtypes=False)
    ctx.ok("single-near-double", not bad, lambda: "%s in single precision: %s" % (c.name, "; ".join(bad[:3])), key="precision/single-near-double/" + name)
    ctx.count("single-near-double:" + c.name)
    ctx.state(c.name)


CHECK = Check("C30", [Family("storage", storage, 670, 12000), Family("precision", precision, 670, 12000)],
              require=["layout", "gradient-flag", "grad-mode", "default-dtype", "channel-layout", "precision-kept", "double-stays-double", "single-near-double"],
              rule="one situation per (call, way of storing its operands or mode it runs in)",
              assumptions=["values are compared where the double-precision result is not about to jump: moving the inputs by 1e-10 (storage; 1e-7 for registration) or 1e-5 (precision) leaves its form and all integer outputs as they are",
                           "the allowed difference is ten (three) times what that move causes, plus 1e-10 (2e-4) of the result's size"])
