"""Snapshots of arguments: what a caller can see of a value before and after a call."""
import copy

import numpy as np
import torch

PC_VIEWS = ("points_list", "normals_list", "colors_list", "features_list", "points_padded", "normals_padded", "colors_padded",
            "features_padded", "nonpad_mask", "num_points_per_pointcloud", "has_points", "has_normals", "has_colors", "has_features", "num_features")
RG_VIEWS = ("rgb_image", "depth_image", "intrinsics", "poses", "pixel_pos", "valid_depth_mask", "has_poses", "vertex_map", "normal_map",
            "global_vertex_map", "global_normal_map", "channels_first", "cdim", "shape")
RG_DERIVED = ("valid_depth_mask", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map")


def kind(x):
    from gradslam.structures.pointclouds import Pointclouds
    from gradslam.structures.rgbdimages import RGBDImages
    if isinstance(x, Pointclouds):
        return "pc"
    if isinstance(x, RGBDImages):
        return "rgbd"
    return None


def tensors_of(x):
    """every tensor / array reachable from x, including the storage behind a view"""
    if torch.is_tensor(x):
        return [x]
    if isinstance(x, np.ndarray):
        return [x] + ([x.base] if isinstance(x.base, np.ndarray) else [])
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in tensors_of(y)]
    if isinstance(x, dict):
        return [t for y in x.values() for t in tensors_of(y)]
    if kind(x):
        return [t for y in vars(x).values() for t in tensors_of(y)]
    return []


def raw(t):
    """value of a tensor or array as bytes, with everything else a caller can see of it"""
    if torch.is_tensor(t):
        d = t.detach()
        return (tuple(d.shape), d.stride(), str(d.dtype), bool(t.requires_grad), t.data_ptr(), d.contiguous().numpy().tobytes(), t.grad is None)
    return (t.shape, t.strides, str(t.dtype), t.ctypes.data, np.ascontiguousarray(t).tobytes() if t.dtype != object else repr(t))


class Snapshot:
    """Remembers the value of an argument; differences() lists what changed since."""

    def __init__(self, x):
        self.x = x
        self.kind = kind(x)
        self.t = [(t, raw(t)) for t in tensors_of(x)]
        self.store = [(t, storage(t)) for t in tensors_of(x) if torch.is_tensor(t)]
        self.twin = clone_object(x) if self.kind else None
        self.plain = freeze(x) if not self.kind else None

    def differences(self):
        out = []
        for t, r in self.t:
            n = raw(t)
            if n != r:
                what = [w for w, a, b in zip(("shape", "stride", "dtype", "requires_grad", "data_ptr", "values", "grad"), r, n) if a != b] if torch.is_tensor(t) else ["array"]
                out.append("tensor of shape %s: %s changed" % (r[0], "/".join(what)))
        for t, s in self.store:
            if storage(t) != s:
                out.append("memory behind a tensor of shape %s changed" % (tuple(t.shape),))
        if self.kind:
            out += compare_objects(self.x, self.twin)
        elif freeze(self.x) != self.plain:
            out.append("container changed")
        return out


def storage(t):
    s = t.detach().untyped_storage()
    if s.nbytes() > 1 << 22:
        return None
    return bytes(torch.tensor([], dtype=torch.uint8).set_(s).numpy().tobytes()) if s.nbytes() else b""


def clone_object(x):
    """copy of a container that shares nothing with it and keeps the state of its caches"""
    y = copy.copy(x)
    for k, v in vars(x).items():
        vars(y)[k] = clone_value(v)
    return y


def clone_value(v):
    if torch.is_tensor(v):
        return v.detach().clone().requires_grad_(v.requires_grad) if v.dtype.is_floating_point else v.clone()
    if isinstance(v, list):
        return [clone_value(u) for u in v]
    if isinstance(v, tuple):
        return tuple(clone_value(u) for u in v)
    if isinstance(v, dict):
        return {k: clone_value(u) for k, u in v.items()}
    if isinstance(v, np.ndarray):
        return v.copy()
    if kind(v):
        return clone_object(v)
    return v


def freeze(x):
    if torch.is_tensor(x) or isinstance(x, np.ndarray):
        return ("t", id(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(y) for y in x)
    if isinstance(x, dict):
        return (type(x).__name__,) + tuple((k, freeze(v)) for k, v in x.items())
    if kind(x):
        return ("obj", id(x))
    return (type(x).__name__, repr(x) if isinstance(x, (int, float, str, bool, type(None))) else id(x))


def read(x):
    """what the public views of a container show (name -> value or exception type)"""
    out = {}
    k = kind(x)
    for n in (PC_VIEWS if k == "pc" else RG_VIEWS):
        if k == "rgbd" and n in RG_DERIVED and (x._depth_image is None):
            continue
        try:
            v = getattr(x, n)
        except Exception as e:
            v = "raises " + type(e).__name__
        out[n] = v
    out["len"] = len(x)
    return out


def comparable(a, b, n):
    """pixel_pos is a cache when none was given: it is None until the first map is computed"""
    return n != "pixel_pos" or (a.get(n) is not None and b.get(n) is not None)


def same(a, b, rtol=0.0, atol=0.0):
    """a and b are the same value (type, shape, contents; NaN equals NaN)"""
    if torch.is_tensor(a) and torch.is_tensor(b):
        if a.shape != b.shape or a.dtype != b.dtype or a.requires_grad != b.requires_grad:
            return False
        x, y = a.detach(), b.detach()
        if not a.dtype.is_floating_point:
            return bool(torch.equal(x, y))
        return bool(torch.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True).all()) if x.numel() else True
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)) if a.dtype.kind in "fc" else bool(np.array_equal(a, b))
    if kind(a) and kind(a) == kind(b):
        return not compare_objects(a, b, rtol, atol)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    if torch.is_tensor(a) or torch.is_tensor(b) or isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or kind(a) or kind(b):
        return False
    if hasattr(a, "to_plotly_json") and hasattr(b, "to_plotly_json"):
        return same(a.to_plotly_json(), b.to_plotly_json())
    if type(a).__name__ == type(b).__name__ and type(a).__module__.startswith(("open3d", "verif", "vlib")):
        return same({k: v for k, v in vars(a).items()}, {k: v for k, v in vars(b).items()})
    return a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)


def compare_objects(a, b, rtol=0.0, atol=0.0):
    ra, rb = read(a), read(b)
    # a map read above may have filled this cache
    for r, x in ((ra, a), (rb, b)):
        if kind(x) == "rgbd":
            r["pixel_pos"] = r["pixel_pos"] if r["pixel_pos"] is not None else x.pixel_pos
    # equal up to rounding: a view computed lazily in a different order need not be bit-identical
    return ["%s differs from before" % n for n in rb if comparable(ra, rb, n) and (n not in ra or not same(ra[n], rb[n], max(rtol, 1e-6), max(atol, 1e-6)))]
