"""Contents of an RGBDImages object as plain numpy (channels last) + views expected from them."""
import numpy as np
import torch

from . import gen

GETTERS = ("rgb_image", "depth_image", "intrinsics", "poses", "valid_depth_mask", "vertex_map", "normal_map",
           "global_vertex_map", "global_normal_map", "shape", "layout", "len", "has_poses")


class Content:
    grad = False            # the tensors of the object require gradients: no value depends on that

    def __init__(self, rgb, depth, K, poses, dtype, cf, pix=None):
        self.rgb, self.depth, self.K, self.poses, self.dtype, self.cf, self.pix = rgb, depth, K, poses, dtype, cf, pix

    @staticmethod
    def of(d, cf=False, pix=None):
        return Content(d.rgb, d.depth, d.K, d.poses, d.dtype, cf, pix)

    def copy(self):
        c = lambda a: None if a is None else a.copy()
        r = Content(c(self.rgb), c(self.depth), c(self.K), c(self.poses), self.dtype, self.cf, c(self.pix))
        r.grad = self.grad
        return r

    def build(self):
        from gradslam.structures.rgbdimages import RGBDImages
        mv = (lambda a: np.moveaxis(a, -1, 2)) if self.cf else (lambda a: a)
        t = lambda a: None if a is None else gen.T(a, self.dtype, self.grad)
        kw = {} if self.pix is None else {"pixel_pos": t(self.pix)}
        return RGBDImages(t(mv(self.rgb)), t(mv(self.depth[..., None])), t(self.K), t(self.poses), channels_first=self.cf, **kw)

    def select(self, b, s):
        f = lambda a: None if a is None else a[b][:, s]
        return Content(f(self.rgb), f(self.depth), self.K[b], f(self.poses), self.dtype, self.cf, f(self.pix))

    @property
    def shape(self):
        return self.rgb.shape[:4]

    def views(self):
        """dict getter -> (expected array channels-last, comparison mask or None)"""
        B, L, h, w = self.shape
        V = np.zeros((B, L, h, w, 3)); N = np.zeros_like(V); good = np.zeros((B, L, h, w), bool)
        for b in range(B):
            for s in range(L):
                d = self.depth[b, s]
                if self.pix is None:
                    V[b, s] = gen.vertex_oracle(d, self.K[b, 0])
                else:
                    Ki = np.linalg.inv(self.K[b, 0][:3, :3])
                    V[b, s] = np.einsum("jc,hwc->hwj", Ki, self.pix[b, s]) * d[..., None]
                    V[b, s][~(d > 0)] = 0
                N[b, s], ln, sc = gen.normal_oracle(V[b, s], d)
                good[b, s] = (ln > 0.02 * sc) & (ln > 1e-5) | ~(d > 0) | (h == 1 or w == 1)
        val = self.depth > 0
        P = self.poses
        if P is None:
            GV, GN = V.copy(), N.copy()
        else:
            GV = np.einsum("bsij,bshwj->bshwi", P[..., :3, :3], V) + P[:, :, None, None, :3, 3]
            GV[~val] = 0
            GN = np.einsum("bsij,bshwj->bshwi", P[..., :3, :3], N)
        return {"vertex_map": (V, None), "normal_map": (N, good), "global_vertex_map": (GV, None), "global_normal_map": (GN, good)}


def last(t, cf):
    a = t.detach().cpu().double().numpy()
    return np.moveaxis(a, 2, -1) if cf else a


def compare(ctx, mon, obj, c, msg, getters=None, views=None):
    """Every public view of obj against content c, in random order.  False on violation."""
    gs = list(getters or GETTERS)
    ctx.rng.shuffle(gs)
    V = views or c.views()
    scale = max(1.0, np.nan_to_num(np.abs(c.depth)).max() * 3, 0 if c.poses is None else np.abs(c.poses).max(), np.abs(V["vertex_map"][0]).max(initial=0))
    # inverse_intrinsics adds a documented eps of 1e-6 to the focal lengths
    ef = 2e-6 / min(1.0, np.abs(c.K[..., 0, 0]).min(), np.abs(c.K[..., 1, 1]).min())
    rt, at = gen.tol(c.dtype, scale)
    rt, at = max(rt, 1.5 * ef), max(at, 1.5 * ef * scale)
    B, L, h, w = c.shape
    for k, g in enumerate(gs):
        m = "%s: %s [read order %s]" % (msg, g, ",".join(gs[max(0, k - 2):k + 1]))
        if g == "shape":
            ok = ctx.ok(mon, tuple(obj.shape) == (B, L, h, w) and (obj.h, obj.w) == (h, w), lambda: "%s is %s, expected %s" % (m, obj.shape, c.shape))
        elif g == "len":
            ok = ctx.ok(mon, len(obj) == B, m)
        elif g == "layout":
            ok = ctx.ok(mon, obj.channels_first == c.cf and obj.cdim == (2 if c.cf else 4), m)
        elif g == "has_poses":
            ok = ctx.ok(mon, obj.has_poses == (c.poses is not None), m)
        elif g == "intrinsics":
            ok = ctx.close(mon, obj.intrinsics, c.K, 0, 0, m)
        elif g == "poses":
            ok = ctx.ok(mon, obj.poses is None, m) if c.poses is None else obj.poses is not None and ctx.close(mon, obj.poses, c.poses, 0, 0, m) or (
                obj.poses is None and ctx.ok(mon, False, m + " is None"))
        elif g in ("rgb_image", "depth_image", "valid_depth_mask"):
            t = getattr(obj, g)
            want = c.rgb if g == "rgb_image" else c.depth[..., None] if g == "depth_image" else (c.depth > 0)[..., None]
            wshape = (B, L, want.shape[-1], h, w) if c.cf else (B, L, h, w, want.shape[-1])
            ok = ctx.ok(mon, tuple(t.shape) == wshape, lambda: "%s has shape %s, expected %s" % (m, tuple(t.shape), wshape))
            if g == "valid_depth_mask":
                ok = ok and ctx.ok(mon, t.dtype == torch.bool, m + " dtype")
            ok = ok and ctx.close(mon, last(t, c.cf), want.astype(float), 0, 0, m)
        else:
            t = getattr(obj, g)
            wshape = (B, L, 3, h, w) if c.cf else (B, L, h, w, 3)
            ok = ctx.ok(mon, tuple(t.shape) == wshape, lambda: "%s has shape %s, expected %s" % (m, tuple(t.shape), wshape))
            if ok:
                got, (want, mask) = last(t, c.cf), V[g]
                if mask is not None:
                    # a normal is compared where the two forward differences are well conditioned
                    got, want = got[mask], want[mask]
                    ok = ctx.close(mon, got, want, 0, ef if c.dtype == torch.float64 else 2e-2, m)
                else:
                    ok = ctx.close(mon, got, want, rt * 3, at, m)
            if ok and g in ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map"):
                inv = last(t, c.cf)[~(c.depth > 0)]
                ok = ctx.ok(mon, not inv.size or (inv == 0).all(), lambda: m + ": pixels without depth are not zero")
        if not ok:
            return False
    return True


def random_content(rng, dtype=None, **kw):
    dtype = dtype or gen.dt(rng)
    d = gen.rgbd(rng, dtype=dtype, **kw)
    pix = None
    if rng.random() < 0.12:
        B, L, h, w = d.shape
        pix = np.concatenate([rng.uniform(0, max(h, w), (B, L, h, w, 2)), np.ones((B, L, h, w, 1))], -1).astype(np.float32).astype(float)
    c = Content.of(d, bool(rng.random() < 0.5), pix)
    c.grad = bool(rng.random() < .06)
    return c


def index(rng, c):
    """Random index expression valid for content c: (expression, selected content, tag)."""
    B, L = c.shape[:2]

    def one(n, allow_list):
        k = rng.choice(["int", "neg", "slice", "all"] + (["list", "bool"] if allow_list else []))
        if k == "int":
            i = int(rng.integers(0, n)); return i, [i], k
        if k == "neg":
            i = int(rng.integers(0, n)); return i - n, [i], k
        if k == "slice":
            a = int(rng.integers(0, n)); e = int(rng.integers(a + 1, n + 1)); s = slice(a, e, 2 if rng.random() < .3 else None)
            return s, list(range(n))[s], k
        if k == "all":
            return slice(None, None), list(range(n)), k
        if k == "list":
            l = [int(v) for v in rng.integers(0, n, int(rng.integers(1, n + 1)))]
            return l, l, k
        m = rng.random(n) < .6
        m[int(rng.integers(0, n))] = True
        return torch.tensor(m), [i for i in range(n) if m[i]], k
    if rng.random() < 0.3:
        e, sel, t = one(B, True)
        return e, c.select(sel, slice(None)).copy(), t
    e1, s1, t1 = one(B, True)
    e2, s2, t2 = one(L, True)
    return (e1, e2), c.select(s1, s2).copy(), t1 + "," + t2
