"""Executable model of a batch of point clouds: a list of independent rows, per cloud.

A `Model` holds for every cloud b a dict attr -> (N_b, C) float64 array.  It knows nothing
about padding, caches or masks; `compare` checks every public view of the real object
against it.
"""
import numpy as np
import torch

from vlib import gen

ATTRS = ("points", "normals", "colors", "features")


class Model:
    def __init__(self, clouds, attrs, dtype):
        self.clouds, self.attrs, self.dtype = clouds, tuple(attrs), dtype

    @property
    def B(self):
        return len(self.clouds)

    def sizes(self):
        return [len(c["points"]) for c in self.clouds]

    def copy(self):
        return Model([{k: v.copy() for k, v in c.items()} for c in self.clouds], self.attrs, self.dtype)

    def padded(self, attr):
        n = max(self.sizes())
        C = self.clouds[0][attr].shape[1]
        out = np.zeros((self.B, n, C))
        for b, c in enumerate(self.clouds):
            out[b, :len(c[attr])] = c[attr]
        return out

    def mask(self):
        n = max(self.sizes())
        out = np.zeros((self.B, n), bool)
        for b, s in enumerate(self.sizes()):
            out[b, :s] = True
        return out

    def scale(self):
        m = [np.abs(c[a]).max() for c in self.clouds for a in c if c[a].size]
        return max(m) if m else 1.0


def empty_model(dtype=torch.float32):
    return Model([], (), dtype)


def build(model, how, grad=False):
    from gradslam.structures.pointclouds import Pointclouds
    if model.B == 0:
        return Pointclouds()
    kw = {}
    for a in ATTRS:
        if a not in model.attrs:
            continue
        if how == "list":
            kw[a] = [torch.tensor(c[a], dtype=model.dtype).reshape(len(c["points"]), -1 if c[a].size else c[a].shape[1]) for c in model.clouds]
        else:
            kw[a] = torch.tensor(np.stack([c[a] for c in model.clouds]), dtype=model.dtype)
    return Pointclouds(**kw)


def random_model(rng, B=None, dtype=None, attrs=None, ragged=None, sizes=None, C=None, zmin=None, dtype64=0.4, big=0.0, wide=0.0):
    """big: how often the batch is far larger, or one of its clouds far longer, than usual;
    wide: how often its coordinates and features are of another magnitude than usual"""
    if big and rng.random() < big:
        if B is None and rng.random() < .3:
            B = int(rng.integers(6, 14))
        elif sizes is None:
            B = B or int(rng.integers(1, 4))
            sizes = [int(rng.integers(0, 7)) for _ in range(B)]
            sizes[int(rng.integers(0, B))] = gen.loguniform(rng, 40, 4000)
            if ragged is False:
                sizes = [max(sizes)] * B
    B = B or int(rng.integers(1, 5))
    dtype = dtype or (torch.float64 if rng.random() < dtype64 else torch.float32)
    if attrs is None:
        attrs = ["points"] + [a for a in ATTRS[1:] if rng.random() < 0.6]
    if sizes is None:
        if ragged is None:
            ragged = rng.random() < 0.7
        if ragged:
            sizes = [int(rng.integers(0, 7)) if rng.random() < 0.85 else int(rng.integers(8, 30)) for _ in range(B)]
        else:
            sizes = [int(rng.integers(0 if rng.random() < .1 else 1, 9))] * B
    C = C or (int(rng.integers(1, 5)) if not big or rng.random() > big else int(rng.integers(5, 40)))
    clouds = []
    mag = 10 ** rng.uniform(-3, 3, 2) if wide and rng.random() < wide else (1, 1)
    for n in sizes:
        c = {"points": rng.uniform(-2, 2, (n, 3))}
        if zmin is not None:
            c["points"][:, 2] = rng.uniform(zmin, zmin + 3, n) * (1 if rng.random() < 0.8 else -1)
        if "normals" in attrs:
            v = rng.normal(size=(n, 3))
            c["normals"] = v / (np.linalg.norm(v, axis=-1, keepdims=True) + 1e-12)
        if "colors" in attrs:
            c["colors"] = rng.uniform(0, 1, (n, 3))
        if "features" in attrs:
            c["features"] = rng.uniform(-1, 1, (n, C))
        c["points"] *= mag[0]
        if "features" in attrs:
            c["features"] *= mag[1]
        if dtype == torch.float32:
            c = {k: v.astype(np.float32).astype(np.float64) for k, v in c.items()}
        clouds.append(c)
    return Model(clouds, attrs, dtype)


GETTERS = tuple("%s_%s" % (a, r) for a in ATTRS for r in ("list", "padded")) + (
    "nonpad_mask", "num_points_per_pointcloud", "has_points", "has_normals", "has_colors", "has_features", "num_features", "len")


def read(ctx, monitor, pc, model, getter, rtol, atol, msg):
    """Read one public view and compare it with the model.  False on violation."""
    m = "%s: %s" % (msg, getter)
    if model.B == 0:
        if getter == "len":
            return ctx.ok(monitor, len(pc) == 0, m)
        if getter == "has_points":
            return ctx.ok(monitor, not pc.has_points, m)
        return True
    if getter == "len":
        return ctx.ok(monitor, len(pc) == model.B, lambda: "%s is %d, expected %d" % (m, len(pc), model.B))
    if getter.startswith("has_"):
        a = getter[4:]
        return ctx.ok(monitor, bool(getattr(pc, getter)) == (a in model.attrs), lambda: "%s is %r but the batch %s %s" % (
            m, getattr(pc, getter), "has" if a in model.attrs else "has no", a))
    if getter == "num_features":
        want = model.clouds[0]["features"].shape[1] if "features" in model.attrs else 0
        return ctx.ok(monitor, pc.num_features == want, lambda: "%s is %r, expected %d" % (m, pc.num_features, want))
    if getter == "num_points_per_pointcloud":
        return ctx.close(monitor, pc.num_points_per_pointcloud, np.array(model.sizes()), 0, 0, m)
    if getter == "nonpad_mask":
        ok = ctx.ok(monitor, pc.nonpad_mask.dtype == torch.bool, m + " dtype")
        return ok and ctx.close(monitor, pc.nonpad_mask, model.mask(), 0, 0, m)
    attr, rep = getter.rsplit("_", 1)
    val = getattr(pc, getter)
    if attr not in model.attrs:
        return ctx.ok(monitor, val is None, lambda: "%s should be None, is %s" % (m, type(val)))
    if val is None:
        return ctx.ok(monitor, False, "%s is None although the batch has %s" % (m, attr))
    if rep == "padded":
        want = model.padded(attr)
        if not ctx.close(monitor, val, want, rtol, atol, m):
            return False
        mask = model.mask()
        pad = val.detach().cpu().numpy()[~mask]
        return ctx.ok(monitor, not pad.size or (pad == 0).all(), lambda: "%s: padding rows are not exactly zero: %s" % (m, pad[:3]))
    if not ctx.ok(monitor, len(val) == model.B, lambda: "%s has %d clouds, expected %d" % (m, len(val), model.B)):
        return False
    good = True
    for b in range(model.B):
        good &= ctx.close(monitor, val[b], model.clouds[b][attr], rtol, atol, "%s[%d]" % (m, b))
    return good


def compare(ctx, monitor, pc, model, rtol, atol, msg, getters=None):
    gs = list(getters or GETTERS)
    ctx.rng.shuffle(gs)
    return all([read(ctx, monitor, pc, model, g, rtol, atol, msg + " [read order %s]" % ",".join(gs[:k + 1][-3:])) for k, g in enumerate(gs)])


def warm(ctx, pc, model):
    """Read a random subset of views so that a random set of caches is populated."""
    if model.B == 0:
        return ()
    gs = [g for g in GETTERS if ctx.rng.random() < 0.3 and g != "len"]
    for g in gs:
        getattr(pc, g)
    return tuple(sorted(gs))


def tensors_of(pc):
    out = []
    for a in ATTRS:
        for r in ("list", "padded"):
            v = getattr(pc, a + "_" + r)
            if v is None:
                continue
            out += list(v) if isinstance(v, (list, tuple)) else [v]
    return out
