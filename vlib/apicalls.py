"""A catalogue of valid calls of every public function and method, each with malformed variants.

A generator draws one valid call.  ``bad`` lists malformed variants (argument, label, value,
exceptions that count as a clean rejection).  Used by C23 (nothing given to a call may
change) and C24 (malformed calls are rejected and leave no trace).
"""
import warnings

import numpy as np
import torch

from vlib import gen, mapmodel, scene
from vlib.pcmodel import ATTRS, random_model

TE = (TypeError,)
VE = (ValueError, IndexError)
# functions that state their argument checks as assertions
TA = (TypeError, AssertionError)
VA = (ValueError, IndexError, AssertionError)
NI = (TypeError, NotImplementedError)
BR = (ValueError, IndexError, RuntimeError)      # tensors that cannot be broadcast together


class Call:
    def __init__(self, name, fn, args, bad=(), change=(), random=False, tol=0.0, inplace_ok=True):
        self.name, self.fn, self.args, self.bad = name, fn, dict(args), list(bad)
        self.change, self.random, self.tol = set(change), random, tol

    def run(self, **over):
        a = dict(self.args)
        a.update(over)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self.fn(**a)


class V:
    """how the tensors of a call are laid out"""

    def __init__(self, rng, dtype=None, grads=True):
        self.rng = self.crng = rng      # layout of tensors; channel layout of frames
        self.dtype = dtype or (torch.float64 if rng.random() < .4 else torch.float32)
        self.grad = grads and rng.random() < .3
        self.strided = rng.random() < .4

    def t(self, a, dtype=None, grad=None, strided=None):
        rng = self.rng
        dtype = dtype or self.dtype
        a = np.asarray(a)
        t = torch.tensor(np.ascontiguousarray(a), dtype=dtype).reshape(a.shape)
        strided = self.strided if strided is None else strided
        grad = self.grad if grad is None else grad
        if strided and t.ndim and not grad and rng.random() < .7:
            k = rng.random()
            if k < .4 and t.ndim >= 2:
                t = t.transpose(-1, -2).contiguous().transpose(-1, -2)
            elif k < .7:
                big = torch.full((t.shape[0] * 2 + 1,) + tuple(t.shape[1:]), 7.0).to(dtype)
                big[1::2] = t
                t = big[1::2]
            else:
                big = torch.full(tuple(t.shape[:-1]) + (t.shape[-1] + 2,), 7.0).to(dtype)
                big[..., 1:-1] = t
                t = big[..., 1:-1]
        if grad and dtype.is_floating_point:
            t.requires_grad_()
        return t

    def pc(self, m, how=None):
        """real Pointclouds of a pcmodel.Model, its tensors laid out by this variant"""
        from gradslam.structures.pointclouds import Pointclouds
        if m.B == 0:
            return Pointclouds()
        how = how or ("padded" if len(set(m.sizes())) == 1 and self.rng.random() < .5 else "list")
        kw = {}
        for a in ATTRS:
            if a in m.attrs:
                kw[a] = self.t(np.stack([c[a] for c in m.clouds]), m.dtype) if how == "padded" else [self.t(c[a], m.dtype) for c in m.clouds]
        pc = Pointclouds(**kw)
        if self.rng.random() < .5:
            for a in m.attrs:
                getattr(pc, a + str(self.rng.choice(["_padded", "_list"])))
        return pc

    def rgbd(self, r, cf=None):
        from gradslam.structures.rgbdimages import RGBDImages
        cf = self.crng.random() < .3 if cf is None else cf
        d = r.depth[..., None]
        rgb = r.rgb
        if cf:
            d, rgb = np.moveaxis(d, -1, 2), np.moveaxis(rgb, -1, 2)
        x = RGBDImages(self.t(rgb, r.dtype), self.t(d, r.dtype), self.t(r.K, r.dtype), None if r.poses is None else self.t(r.poses, r.dtype), channels_first=bool(cf))
        if self.rng.random() < .4:
            x.vertex_map, x.normal_map, x.valid_depth_mask
            if r.poses is not None:
                x.global_vertex_map, x.global_normal_map
        return x


# ------------------------------------------------------------------ malformed values
def not_tensor(v, none=True):
    out = [("array", v.detach().numpy().copy()), ("list", v.detach().tolist()), ("text", "abc")]
    return out + ([("none", None)] if none else [])


def not_pc():
    return [("tensor", torch.rand(1, 4, 3)), ("none", None), ("text", "map")]


def not_rgbd():
    return [("tensor", torch.rand(1, 1, 2, 2, 3)), ("none", None), ("text", "frames")]


def B(arg, items, exc):
    return [(arg, label, v, exc) for label, v in items]


def shapes(arg, v, exc, *, drop=True, add=True, last=True, first=False, last_minus=True):
    """wrong ranks and sizes of a tensor argument"""
    out = []
    if drop and v.ndim:
        out.append((arg, "one dimension fewer", v.detach()[0].clone() if v.shape[0] else v.detach().sum(0), exc))
    if add:
        out.append((arg, "one dimension more", v.detach().clone()[None], exc))
    if last:
        out.append((arg, "last size + 1", torch.cat([v.detach(), v.detach()[..., :1]], -1), exc))
        if last_minus and v.shape[-1] > 1:
            out.append((arg, "last size - 1", v.detach()[..., :-1].clone(), exc))
    if first:
        out.append((arg, "first size + 1", torch.cat([v.detach(), v.detach()[:1]], 0), exc))
    return out


# ------------------------------------------------------------------ geometry
def g_homogenize(rng, v):
    from gradslam.geometry import projutils as m
    n = int(rng.integers(2, 5))
    x = v.t(rng.normal(size=tuple(rng.integers(1, 4, n - 1)) + (int(rng.integers(1, 5)),)))
    f = m.homogenize_points if rng.random() < .5 else __import__("gradslam.geometry.geometryutils", fromlist=["x"]).homogenize_points
    return Call("homogenize_points", lambda pts: f(pts), dict(pts=x), B("pts", not_tensor(x), TE) + [("pts", "vector", x.detach().reshape(-1), VE)])


def g_unhomogenize(rng, v):
    from gradslam.geometry import projutils as m
    from gradslam.geometry import geometryutils as g
    n = int(rng.integers(2, 5))
    a = rng.normal(size=tuple(rng.integers(1, 4, n - 1)) + (int(rng.integers(2, 5)),))
    a[..., -1] *= rng.random(a.shape[:-1]) > .3
    x = v.t(a)
    f = m.unhomogenize_points if rng.random() < .5 else g.unhomogenize_points
    return Call("unhomogenize_points", lambda pts: f(pts), dict(pts=x), B("pts", not_tensor(x), TE) + [("pts", "vector", x.detach().reshape(-1), VE)])


def _proj(rng, v, nd, k):
    lead = tuple(int(s) for s in rng.integers(1, 4, nd - 1))
    K = gen.intrinsics(rng, 8, 8)
    return lead, K[:k, :k]


def g_project(rng, v):
    from gradslam.geometry import projutils as m
    nd = int(rng.integers(2, 5))
    lead, K = _proj(rng, v, nd, 4)
    a = rng.normal(size=lead + (3,)) * 2
    a[..., 2] *= rng.random(lead) > .2
    if rng.random() < .4:
        a = np.concatenate([a, np.ones(lead + (1,))], -1)
    x = v.t(a)
    batched = nd > 2 and rng.random() < .6
    P = v.t(np.broadcast_to(K, (lead[0],) + (1,) * (nd - 3) + (4, 4)) if batched else K)
    bad = B("cam_coords", not_tensor(x), TE) + B("proj_mat", not_tensor(P), TE)
    bad += [("cam_coords", "vector", x.detach().reshape(-1)[:3].clone(), VE), ("cam_coords", "2 coordinates", x.detach()[..., :2].clone(), VE), ("cam_coords", "5 coordinates", torch.cat([x.detach(), x.detach()], -1)[..., :5].clone() if x.shape[-1] > 2 else x.detach(), VE),
            ("proj_mat", "vector", P.detach().reshape(-1)[:4].clone(), VE), ("proj_mat", "3x3", P.detach()[..., :3, :3].clone(), VE), ("proj_mat", "3x4", P.detach()[..., :3, :].clone(), VE), ("proj_mat", "4x3", P.detach()[..., :, :3].clone(), VE)]
    if batched:
        bad += [("proj_mat", "other batch size", torch.cat([P.detach(), P.detach()[:1]], 0), VE), ("proj_mat", "extra dimension", P.detach()[:, None].clone(), VE)]
    return Call("project_points", lambda cam_coords, proj_mat: m.project_points(cam_coords, proj_mat), dict(cam_coords=x, proj_mat=P), bad)


def g_unproject(rng, v):
    from gradslam.geometry import projutils as m
    nd = int(rng.integers(2, 5))
    lead, K = _proj(rng, v, nd, 3)
    a = rng.uniform(0, 8, lead + (2,))
    if rng.random() < .5:
        a = np.concatenate([a, np.ones(lead + (1,))], -1)
    x = v.t(a)
    batched = nd > 2 and rng.random() < .6
    Ki = np.linalg.inv(K)
    P = v.t(np.broadcast_to(Ki, (lead[0],) + (1,) * (nd - 3) + (3, 3)) if batched else Ki)
    d = v.t(rng.uniform(0, 3, lead))
    bad = B("pixel_coords", not_tensor(x), TE) + B("intrinsics_inv", not_tensor(P), TE) + B("depths", not_tensor(d), TE)
    bad += [("pixel_coords", "vector", x.detach().reshape(-1)[:2].clone(), VE), ("pixel_coords", "1 coordinate", x.detach()[..., :1].clone(), VE), ("pixel_coords", "4 coordinates", torch.cat([x.detach(), x.detach()], -1)[..., :4].clone(), VE),
            ("intrinsics_inv", "vector", P.detach().reshape(-1)[:3].clone(), VE), ("intrinsics_inv", "2x3", P.detach()[..., :2, :].clone(), VE), ("intrinsics_inv", "3x2", P.detach()[..., :, :2].clone(), VE), ("intrinsics_inv", "2x2", P.detach()[..., :2, :2].clone(), VE),
            ("depths", "trailing 1", d.detach()[..., None].clone(), VE), ("depths", "one more", torch.cat([d.detach(), d.detach()[..., :1]], -1), VE)]
    if batched:
        bad += [("intrinsics_inv", "other batch size", torch.cat([P.detach(), P.detach()[:1]], 0), VE), ("intrinsics_inv", "extra dimension", P.detach()[:, None].clone(), VE)]
    return Call("unproject_points", lambda pixel_coords, intrinsics_inv, depths: m.unproject_points(pixel_coords, intrinsics_inv, depths), dict(pixel_coords=x, intrinsics_inv=P, depths=d), bad)


def g_inverse_intrinsics(rng, v):
    from gradslam.geometry import projutils as m
    k = int(rng.choice([3, 4]))
    lead = tuple(int(s) for s in rng.integers(1, 3, int(rng.integers(0, 3))))
    K = v.t(np.broadcast_to(gen.intrinsics(rng, 6, 8)[:k, :k], lead + (k, k)))
    return Call("inverse_intrinsics", lambda K: m.inverse_intrinsics(K), dict(K=K),
                B("K", not_tensor(K), TE) + [("K", "vector", K.detach().reshape(-1)[:4].clone(), VE), ("K", "fewer rows", K.detach()[..., :-1, :].clone(), VE), ("K", "fewer columns", K.detach()[..., :-1].clone(), VE), ("K", "2x2", K.detach()[..., :2, :2].clone(), VE)])


def _lead(rng):
    return tuple(int(s) for s in rng.integers(1, 4, int(rng.integers(0, 3))))


def g_quat_axisangle(rng, v):
    from gradslam.geometry import geometryutils as g
    q = rng.normal(size=_lead(rng) + (4,))
    q = v.t(q / np.linalg.norm(q, axis=-1, keepdims=True))
    return Call("quaternion_to_axisangle", lambda quat: g.quaternion_to_axisangle(quat), dict(quat=q), B("quat", not_tensor(q), TE) + shapes("quat", q, VE, drop=False, add=False))


def g_quat_norm(rng, v):
    from gradslam.geometry import geometryutils as g
    q = v.t(rng.normal(size=_lead(rng) + (4,)))
    return Call("normalize_quaternion", lambda q: g.normalize_quaternion(q), dict(q=q), shapes("q", q, VE, drop=False, add=False))


def g_quat_rot(rng, v):
    from gradslam.geometry import geometryutils as g
    q = v.t(rng.normal(size=_lead(rng) + (4,)))
    return Call("quaternion_to_rotation_matrix", lambda q: g.quaternion_to_rotation_matrix(q), dict(q=q), shapes("q", q, VE, drop=False, add=False))


def _tf(rng, v, two=False):
    lead = () if rng.random() < .5 else (int(rng.integers(1, 4)),)
    a = [v.t(gen.rigids(rng, lead)) for _ in range(2 if two else 1)]
    return a


def _tfbad(arg, t, exc=VE):
    bad = B(arg, not_tensor(t), TE) + [(arg, "3x4", t.detach()[..., :3, :].clone(), exc), (arg, "4x3", t.detach()[..., :3].clone(), exc), (arg, "3x3", t.detach()[..., :3, :3].clone(), exc), (arg, "4 dimensions", t.detach().reshape(1, -1, 4, 4).clone(), exc), (arg, "vector", t.detach().reshape(-1).clone(), exc)]
    return bad


def g_inverse_tf(rng, v):
    from gradslam.geometry import geometryutils as g
    t, = _tf(rng, v)
    return Call("inverse_transfom_3d", lambda trans: g.inverse_transfom_3d(trans), dict(trans=t), _tfbad("trans", t))


def g_compose_tf(rng, v):
    from gradslam.geometry import geometryutils as g
    a, b = _tf(rng, v, True)
    bad = _tfbad("trans1", a) + _tfbad("trans2", b)
    if a.ndim == 3:
        bad += [("trans2", "other batch size", torch.cat([b.detach(), b.detach()[:1]], 0), VA), ("trans1", "no batch", a.detach()[0].clone(), VA)]
    f = g.compose_transforms_3d
    name = "compose_transforms_3d"
    if rng.random() < .4:
        name, f = "relative_transform_3d", g.relative_transform_3d
    return Call(name, lambda trans1, trans2: f(trans1, trans2), dict(trans1=a, trans2=b), bad)


def g_relative(rng, v):
    from gradslam.geometry import geometryutils as g
    a, b = _tf(rng, v, True)
    o = bool(rng.random() < .5)
    bad = _tfbad("trans_01", a) + _tfbad("trans_02", b)
    if a.ndim == 3:
        bad += [("trans_01", "no batch", a.detach()[0].clone(), VE), ("trans_02", "no batch", b.detach()[0].clone(), VE)]
    return Call("relative_transformation", lambda trans_01, trans_02: g.relative_transformation(trans_01, trans_02, o), dict(trans_01=a, trans_02=b), bad)


def g_transform_pts_3d(rng, v):
    from gradslam.geometry import geometryutils as g
    p = v.t(rng.normal(size=((int(rng.integers(1, 6)),) if rng.random() < .6 else tuple(int(s) for s in rng.integers(1, 4, 3))) + (3,)))
    t = v.t(gen.rigid(rng))
    bad = B("pts", not_tensor(p), TE) + B("tf", not_tensor(t), TE) + [("pts", "vector", p.detach().reshape(-1)[:3].clone(), VE), ("tf", "batch", t.detach()[None].clone(), VE), ("tf", "vector", t.detach()[0].clone(), VE), ("tf", "3x4", t.detach()[:3].clone(), VE), ("tf", "4x3", t.detach()[:, :3].clone(), VE)]
    return Call("transform_pts_3d", lambda pts, tf: g.transform_pts_3d(pts, tf), dict(pts=p, tf=t), bad)


def g_transform_pts_nd(rng, v):
    from gradslam.geometry import geometryutils as g
    b, n, d = (int(s) for s in rng.integers(1, 5, 3))
    p = v.t(rng.normal(size=(b, n, d)))
    M = np.broadcast_to(np.eye(d + 1), (b, d + 1, d + 1)).copy()
    M[:, :d, :] += rng.normal(size=(b, d, d + 1)) * .3
    t = v.t(M)
    bad = [("pts", "other batch size", torch.cat([p.detach(), p.detach()[:1]], 0), VE), ("tf", "other batch size", torch.cat([t.detach(), t.detach()[:1]], 0), VE)] + shapes("pts", p, VE, drop=False, add=False)
    return Call("transform_pts_nd_KF", lambda pts, tf: g.transform_pts_nd_KF(pts, tf), dict(pts=p, tf=t), bad)


def g_pixel_norm(rng, v):
    from gradslam.geometry import geometryutils as g
    p = v.t(rng.uniform(0, 5, _lead(rng) + (2,)))
    h, w = (int(s) for s in rng.integers(2, 9, 2))
    un = rng.random() < .5
    f = g.unnormalize_pixel_coords if un else g.normalize_pixel_coords
    bad = B("p", not_tensor(p), TE) + shapes("p", p, VE, drop=False, add=False) + [("h", "float", 3.5, TA), ("h", "text", "3", TA), ("w", "none", None, TA), ("w", "float", 4.0, TA)]
    return Call("unnormalize_pixel_coords" if un else "normalize_pixel_coords", lambda p, h, w: f(p, h, w), dict(p=p, h=h, w=w), bad)


def g_meshgrid(rng, v):
    from gradslam.geometry import geometryutils as g
    h, w = (int(s) for s in rng.integers(1, 5, 2))
    return Call("create_meshgrid", lambda h, w, n: g.create_meshgrid(h, w, n), dict(h=h, w=w, n=bool(rng.random() < .5)))


def g_cam2pixel(rng, v):
    from gradslam.geometry import geometryutils as g
    h, w = (int(s) for s in rng.integers(1, 5, 2))
    p = v.t(rng.uniform(.5, 3, (1, h, w, 3)))
    t = v.t(gen.intrinsics(rng, 6, 6) @ gen.rigid(rng, .2, .2))
    bad = B("p", not_tensor(p), TA) + B("t", not_tensor(t), TA) + [("p", "4 coordinates", torch.cat([p.detach(), p.detach()[..., :1]], -1), VA), ("p", "matrix", p.detach()[0, 0].clone(), VA), ("t", "batch", t.detach()[None].clone(), VA), ("t", "3x4", t.detach()[:3].clone(), VA), ("t", "vector", t.detach()[0].clone(), VA)]
    return Call("cam2pixel", lambda p, t: g.cam2pixel(p, t), dict(p=p, t=t), bad)


def g_cam2pixel_kf(rng, v):
    from gradslam.geometry import geometryutils as g
    b, n = (int(s) for s in rng.integers(1, 5, 2))
    p = v.t(rng.uniform(.5, 3, (b, n, 3)))
    t = v.t(np.stack([gen.intrinsics(rng, 6, 6) @ gen.rigid(rng, .2, .2) for _ in range(b)]))
    bad = B("p", not_tensor(p), TA) + B("t", not_tensor(t), TA) + [("p", "4 coordinates", torch.cat([p.detach(), p.detach()[..., :1]], -1), VA), ("t", "3x4", t.detach()[:, :3].clone(), VA), ("t", "4x3", t.detach()[:, :, :3].clone(), VA), ("t", "other batch size", torch.cat([t.detach(), t.detach()[:1]], 0), VA)]
    return Call("cam2pixel_KF", lambda p, t: g.cam2pixel_KF(p, t), dict(p=p, t=t), bad)


def g_pixel2cam(rng, v):
    from gradslam.geometry import geometryutils as g
    h, w = (int(s) for s in rng.integers(1, 5, 2))
    d = v.t(rng.uniform(.5, 3, (1, 1, h, w)))
    K = v.t(np.linalg.inv(gen.intrinsics(rng, 6, 6)))
    p = v.t(np.concatenate([rng.uniform(0, 5, (1, h, w, 2)), np.ones((1, h, w, 1))], -1))
    bad = B("d", not_tensor(d), TE) + B("K", not_tensor(K), TE) + B("p", not_tensor(p), TE) + [("K", "batch", K.detach()[None].clone(), VA), ("K", "3x4", K.detach()[:3].clone(), VA), ("K", "4x3", K.detach()[:, :3].clone(), VA)]
    return Call("pixel2cam", lambda d, K, p: g.pixel2cam(d, K, p), dict(d=d, K=K, p=p), bad)


def g_transform_cloud(rng, v):
    from gradslam.geometry import geometryutils as g
    p = v.t(rng.normal(size=(int(rng.integers(0, 6)), 3)))
    t = v.t(gen.rigid(rng))
    nm = rng.random() < .5
    f = g.transform_normals if nm else g.transform_pointcloud
    bad = B("p", not_tensor(p), TE) + B("t", not_tensor(t), TE) + [("p", "batch", p.detach()[None].clone(), VE), ("p", "vector", torch.rand(3, dtype=p.dtype), VE), ("p", "4 coordinates", torch.cat([p.detach(), p.detach()[:, :1]], -1), VE), ("p", "2 coordinates", p.detach()[:, :2].clone(), VE),
                                                                ("t", "3x4", t.detach()[:3].clone(), VE), ("t", "4x3", t.detach()[:, :3].clone(), VE), ("t", "3x3", t.detach()[:3, :3].clone(), VE), ("t", "vector", t.detach()[0].clone(), VE), ("t", "batch", t.detach()[None].repeat(int(rng.integers(1, 4)), 1, 1), VE)]
    return Call("transform_normals" if nm else "transform_pointcloud", lambda p, t: f(p, t), dict(p=p, t=t), bad)


def g_se3(rng, v):
    from gradslam.geometry import se3utils as s
    name = str(rng.choice(["so3_hat", "se3_hat", "so3_exp", "se3_exp"]))
    n = 3 if name.startswith("so3") else 6
    x = v.t(rng.normal(size=n) * rng.choice([1e-8, .1, 1, 3]))
    return Call(name, lambda x: getattr(s, name)(x), dict(x=x), B("x", not_tensor(x), TA))


# ------------------------------------------------------------------ structutils
def g_list_to_padded(rng, v):
    from gradslam.structures import structutils as s
    xs = [v.t(rng.normal(size=(int(rng.integers(0 if i else 1, 5)), 3))) for i in range(int(rng.integers(1, 4)))]
    kw = dict(pad_value=float(rng.choice([0, -1.5])))
    if rng.random() < .4:
        kw["pad_size"] = (6, 4)
    bad = [("x", "items of one dimension", [torch.rand(3), torch.rand(2)], VE), ("x", "items of three dimensions", [torch.rand(3, 2, 2)], BR), ("pad_size", "one number", (6,), VE), ("pad_size", "three numbers", (6, 4, 2), VE)]
    return Call("list_to_padded", lambda x, pad_size: s.list_to_padded(x, pad_size=pad_size, pad_value=kw["pad_value"]), dict(x=xs, pad_size=kw.get("pad_size")), bad)


def g_padded_to_list(rng, v):
    from gradslam.structures import structutils as s
    b, n = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    x = v.t(rng.normal(size=(b, n, 3)))
    k = rng.random()
    sp = None if k < .3 else [int(c) for c in rng.integers(0, n + 1, b)] if k < .7 else [(int(c), 2) for c in rng.integers(0, n + 1, b)]
    bad = [("x", "matrix", x.detach()[0].clone(), VE), ("x", "4 dimensions", x.detach()[None].clone(), VE), ("sp", "too many", [1] * (b + 1), VE), ("sp", "too few", [1] * (b - 1), VE), ("sp", "three numbers each", [(1, 1, 1)] * b, VE)]
    return Call("padded_to_list", lambda x, sp: s.padded_to_list(x, sp), dict(x=x, sp=sp), bad)


def _image(rng):
    h, w = (int(s) for s in rng.integers(1, 20, 2))
    return rng.integers(0, 256, (h, w, 3) if rng.random() < .6 else (h, w)).astype(np.uint8)


def g_img_b64(rng, v):
    from gradslam.structures import structutils as s
    im = _image(rng)
    q = int(rng.integers(1, 101))
    bad = [("im", "tensor", torch.tensor(im), TE), ("im", "list", im.tolist(), TE), ("im", "none", None, TE), ("im", "vector", im.reshape(-1), VE), ("im", "4 dimensions", im[None, None] if im.ndim == 2 else im[None], VE)]
    if rng.random() < .5:
        return Call("img_to_b64str", lambda im: s.img_to_b64str(im, q), dict(im=im), bad)
    return Call("numpy_to_plotly_image", lambda im: s.numpy_to_plotly_image(im, "n", im.ndim == 2 if isinstance(im, np.ndarray) else False, None, q), dict(im=im), bad)


# ------------------------------------------------------------------ datasets' helpers
def _arr_or_tensor(rng, a, v):
    if rng.random() < .5:
        t = v.t(a, grad=False)
        return t
    a = np.asarray(a, dtype=np.float64 if rng.random() < .5 else np.float32)
    if rng.random() < .4 and a.ndim >= 2:
        a = np.asfortranarray(a)
    return a


def g_normalize_image(rng, v):
    from gradslam.datasets import datautils as d
    a = rng.integers(0, 256, _lead(rng) + (2, 3, 3))
    x = a.astype(np.uint8) if rng.random() < .3 else _arr_or_tensor(rng, a, v)
    return Call("normalize_image", lambda rgb: d.normalize_image(rgb), dict(rgb=x), [("rgb", "list", a.tolist(), TE), ("rgb", "none", None, TE), ("rgb", "text", "x", TE)])


def g_channels_first(rng, v):
    from gradslam.datasets import datautils as d
    a = rng.integers(0, 256, _lead(rng) + (4, 5, 3))
    x = _arr_or_tensor(rng, a, v)
    return Call("channels_first", lambda rgb: d.channels_first(rgb), dict(rgb=x), [("rgb", "list", a.tolist(), TE), ("rgb", "none", None, TE), ("rgb", "matrix", x.reshape(-1, 3), VE), ("rgb", "vector", x.reshape(-1), VE)])


def g_scale_intrinsics(rng, v):
    from gradslam.datasets import datautils as d
    k = int(rng.choice([3, 4]))
    lead = _lead(rng)
    x = _arr_or_tensor(rng, np.broadcast_to(gen.intrinsics(rng, 6, 8)[:k, :k], lead + (k, k)).copy(), v)
    r = rng.uniform(.2, 3, 2)
    return Call("scale_intrinsics", lambda K: d.scale_intrinsics(K, float(r[0]), float(r[1])), dict(K=x), [("K", "list", x.tolist(), TE), ("K", "none", None, TE), ("K", "fewer rows", x[..., :-1, :], VE), ("K", "fewer columns", x[..., :-1], VE), ("K", "2x2", x[..., :2, :2], VE)])


def g_pointquaternion(rng, v):
    from gradslam.datasets import datautils as d
    a = rng.normal(size=_lead(rng) + (7,))
    x = _arr_or_tensor(rng, a, v)
    return Call("pointquaternion_to_homogeneous", lambda pq, eps: d.pointquaternion_to_homogeneous(pq, eps), dict(pq=x, eps=1e-12),
                [("pq", "list", a.tolist(), TE), ("pq", "none", None, TE), ("pq", "6 numbers", x[..., :6], VE), ("pq", "8 numbers", np.concatenate([a, a[..., :1]], -1), VE), ("eps", "int", 1, TE), ("eps", "text", "1e-9", TE), ("eps", "none", None, TE)])


def g_poses_to_transforms(rng, v):
    from gradslam.datasets import datautils as d
    P = gen.rigids(rng, (int(rng.integers(1, 5)),)).astype(np.float64 if rng.random() < .5 else np.float32)
    return Call("poses_to_transforms", lambda poses: d.poses_to_transforms(poses), dict(poses=[p.copy() for p in P] if rng.random() < .5 else P))


def g_label_image(rng, v):
    from collections import OrderedDict
    from gradslam.datasets import datautils as d
    n = int(rng.integers(1, 6))
    p = rng.integers(0, n, tuple(rng.integers(1, 6, 2))).astype(str(rng.choice(["uint8", "int64", "int32"])))
    pal = OrderedDict((str(i), tuple(int(c) for c in rng.integers(0, 256, 3))) for i in range(n))
    k = rng.random()
    pal = pal if k < .5 else list(pal.values()) if k < .8 else np.array(list(pal.values()))
    return Call("create_label_image", lambda prediction, palette: d.create_label_image(prediction, palette), dict(prediction=p, palette=pal))


def g_nyu(rng, v):
    from gradslam.datasets.scannet import nyu40_to_scannet20
    return Call("nyu40_to_scannet20", lambda label: nyu40_to_scannet20(label), dict(label=rng.integers(0, 41, tuple(rng.integers(1, 6, 2))).astype(str(rng.choice(["uint8", "int64", "float32"])))))


def g_transform44(rng, v):
    from gradslam.datasets import tumutils as t
    a = rng.normal(size=8)
    a[4:] *= rng.random() > .15
    k = rng.random()
    x = tuple(a) if k < .4 else list(a) if k < .7 else a
    return Call("transform44", lambda l: t.transform44(l), dict(l=x))


def g_associate(rng, v):
    from gradslam.datasets import tumutils as t
    mk = lambda off: {"%.4f" % s: ["f%d" % i, i] for i, s in enumerate(np.cumsum(rng.uniform(.01, .1, int(rng.integers(0, 8)))) + off)}
    return Call("associate", lambda a, b: t.associate(a, b, 0.0, .05), dict(a=mk(0), b=mk(.01)))


# ------------------------------------------------------------------ containers
def g_pc_construct(rng, v):
    from gradslam.structures.pointclouds import Pointclouds
    m = random_model(rng, dtype=v.dtype, B=int(rng.integers(1, 4)), ragged=bool(rng.random() < .5))
    if rng.random() < .75 or not m.attrs:
        m = random_model(rng, dtype=v.dtype, B=int(rng.integers(1, 4)), attrs=list(ATTRS), sizes=[int(s) for s in rng.integers(1, 5, 3)])
    padded = len(set(m.sizes())) == 1 and rng.random() < .5
    a = {k: None for k in ATTRS}
    for k in m.attrs:
        a[k] = v.t(np.stack([c[k] for c in m.clouds])) if padded else [v.t(c[k]) for c in m.clouds]
    bad = [("points", "array", np.zeros((2, 3, 3)), TE), ("points", "text", "p", TE), ("points", "tuple", tuple(torch.rand(2, 3) for _ in range(2)), TE), ("points", "empty list", [], VE + TE)]
    if padded:
        p = a["points"].detach()
        bad += [("points", "2 dimensions", p[0].clone(), VE), ("points", "4 dimensions", p[None].clone(), VE), ("points", "4 coordinates", torch.cat([p, p[..., :1]], -1), VE), ("points", "2 coordinates", p[..., :2].clone(), VE)]
        for k in ATTRS[1:]:
            if k in m.attrs:
                q = a[k].detach()
                bad += [(k, "list instead of tensor", list(q.unbind(0)), TE), (k, "array", q.numpy().copy(), TE), (k, "other batch size", torch.cat([q, q[:1]], 0), VE), (k, "other number of points", torch.cat([q, q[:, :1]], 1) if q.shape[1] else torch.zeros(q.shape[0], 1, q.shape[2], dtype=q.dtype), VE), (k, "2 dimensions", q[0].clone(), VE)]
                if k != "features":
                    bad += [(k, "4 channels", torch.cat([q, q[..., :1]], -1), VE)]
        if all(a[k] is None for k in ATTRS[1:]):
            bad.append(("points", "batch of size 0", p[:0].clone(), VE))
    else:
        p = [x.detach() for x in a["points"]]
        bad += [("points", "item of 1 dimension", p[:-1] + [torch.rand(3)], VE), ("points", "item of 3 dimensions", p[:-1] + [torch.rand(1, 2, 3)], VE), ("points", "item with 4 coordinates", p[:-1] + [torch.rand(len(p[-1]), 4)], VE),
                ("points", "array items", [x.numpy().copy() for x in p], TE), ("points", "text items", ["a"] * len(p), TE), ("points", "none items", [None] * len(p), TE)]
        if all(a[k] is None for k in ATTRS[1:]):
            bad.append(("points", "empty list", [], VE))
        for k in ATTRS[1:]:
            if k in m.attrs:
                q = [x.detach() for x in a[k]]
                bad += [(k, "tensor instead of list", torch.rand(len(q), 3, 3), TE), (k, "one item too many", q + q[:1], VE), (k, "one item too few", q[:-1], VE), (k, "one row too many", q[:-1] + [torch.rand(len(q[-1]) + 1, q[-1].shape[1])], VE), (k, "item of 1 dimension", q[:-1] + [torch.rand(3)], VE),
                        (k, "item of 3 dimensions", q[:-1] + [torch.rand(1, 2, 3)], VE), (k, "array items", [x.numpy().copy() for x in q], TE)]
                if k != "features":
                    bad += [(k, "4 channels", q[:-1] + [torch.rand(len(q[-1]), 4)], VE)]
                elif len(q) > 1:
                    bad += [(k, "different feature counts", q[:-1] + [torch.rand(len(q[-1]), q[-1].shape[1] + 1)], VE)]
    if "normals" in m.attrs:
        bad.append(("points", "missing while attributes are given", None, TE))
    return Call("Pointclouds()", lambda **k: Pointclouds(**k), a, bad)


def _frames(rng, v, L=None, Bn=None, poses=None, cf=None, **kw):
    r = mapmodel.surface_rgbd(rng, B=Bn or int(rng.integers(1, 3)), L=L or int(rng.integers(1, 4)), dtype=v.dtype, missing=str(rng.choice(["none", "some", "block"])), **kw)
    if poses is False:
        r.poses = None
    return r, v.rgbd(r, cf)


def g_rgbd_construct(rng, v):
    from gradslam.structures.rgbdimages import RGBDImages
    r, x = _frames(rng, v)
    cf = x.channels_first
    a = dict(rgb_image=x._rgb_image, depth_image=x._depth_image, intrinsics=x._intrinsics, poses=x._poses if rng.random() < .7 else None, channels_first=cf)
    if rng.random() < .3:
        a["pixel_pos"] = x.pixel_pos if x.pixel_pos is not None else None
    bad = []
    for k in ("rgb_image", "depth_image", "intrinsics", "poses"):
        t = a[k]
        if t is None:
            bad += [(k, "text", "x", TE), (k, "list", [1], TE)]
            continue
        bad += B(k, not_tensor(t, none=k != "poses"), TE)
        bad += [(k, "one dimension fewer", t.detach()[0].clone(), VE), (k, "one dimension more", t.detach()[None].clone(), VE), (k, "other batch size", torch.cat([t.detach(), t.detach()[:1]], 0), VE)]
        c = (2 if cf else 4) if "image" in k else -1
        d = t.detach()
        bad += [(k, "one channel more", torch.cat([d, d.narrow(c, 0, 1)], c), VE)]
        if k != "intrinsics":
            bad += [(k, "other sequence length", torch.cat([d, d[:, :1]], 1), VE)]
        else:
            bad += [(k, "one matrix per frame", d.repeat(1, 2, 1, 1), VE), (k, "3x3", d[..., :3, :3].clone(), VE)]
        if "image" in k:
            hdim = 3 if cf else 2
            bad += [(k, "one row more", torch.cat([d, d.narrow(hdim, 0, 1)], hdim), VE), (k, "one column more", torch.cat([d, d.narrow(hdim + 1, 0, 1)], hdim + 1), VE)]
    bad += [("channels_first", "int", 1, TE), ("channels_first", "none", None, TE), ("channels_first", "text", "last", TE)]
    h, w = r.depth.shape[2:]
    if 3 not in ((h,) if not cf else (w,)) and a["rgb_image"].shape[2 if not cf else 4] != 3:
        bad.append(("channels_first", "the other layout", not cf, VE))
    bad += [("pixel_pos", "text", "x", TE), ("pixel_pos", "wrong shape", torch.rand(1, 2), VE)]
    a.setdefault("pixel_pos", None)
    return Call("RGBDImages()", lambda **k: RGBDImages(**k), a, bad)


def _cloud(rng, v, attrs=None, Bn=None):
    m = random_model(rng, dtype=v.dtype, B=Bn or int(rng.integers(1, 4)), attrs=attrs, ragged=bool(rng.random() < .7))
    return m, v.pc(m)


def g_pc_index(rng, v):
    m, pc = _cloud(rng, v)
    n = m.B
    k = rng.random()
    i = int(rng.integers(-n, n))
    idx = i if k < .3 else slice(0, int(rng.integers(1, n + 1))) if k < .5 else [int(j) for j in rng.integers(0, n, 2)] if k < .7 else torch.tensor([True] * n) if k < .85 else torch.tensor([0, n - 1])
    bad = [("i", "past the end", n, VE), ("i", "before the start", -n - 1, VE), ("i", "list past the end", [0, n + 2], VE), ("i", "float", 0.5, TE + VE), ("i", "text", "0", TE + VE), ("i", "none", None, TE + VE), ("i", "tuple", (0, 0), TE + VE), ("i", "float tensor", torch.tensor([0.0]), TE + VE), ("i", "tensor of two dimensions", torch.zeros(1, 1).long(), TE + VE), ("i", "empty range", slice(n, n + 1), VE), ("pc", "the empty batch", type(pc)(), VE)]
    return Call("Pointclouds[]", lambda pc, i: pc[i], dict(pc=pc, i=idx), bad)


def g_rgbd_index(rng, v):
    r, x = _frames(rng, v)
    b, l = r.shape[:2]
    one = lambda n: [int(rng.integers(-n, n)), slice(0, n), slice(0, 1), [0, n - 1], torch.tensor([True] * n)][int(rng.integers(0, 5))]
    idx = one(b) if rng.random() < .5 else (one(b), one(l))
    bad = [("i", "past the end", b, VE), ("i", "sequence past the end", (0, l), VE), ("i", "before the start", -b - 1, VE), ("i", "three indices", (0, 0, 0), VE), ("i", "text", "0", TE + VE), ("i", "float", 1.5, TE + VE), ("i", "none", None, TE + VE), ("i", "empty range", slice(b, b + 2), VE), ("i", "empty range of frames", (slice(None), slice(l, l + 1)), VE), ("i", "list past the end", [b + 1], VE)]
    return Call("RGBDImages[]", lambda x, i: x[i], dict(x=x, i=idx), bad)


def g_pc_arith(rng, v):
    m, pc = _cloud(rng, v)
    b, n = m.B, max(m.sizes())
    op = str(rng.choice(["+", "-", "*", "/"]))
    sh = [(), (3,), (1, 1, 3), (b, 1, 3), (b, n, 3), (b, 1, 1)][int(rng.integers(0, 6))]
    o = float(rng.uniform(.5, 2)) if rng.random() < .2 else int(rng.integers(1, 4)) if rng.random() < .2 else v.t(rng.uniform(.5, 2, sh))
    f = {"+": lambda pc, o: pc + o, "-": lambda pc, o: pc - o, "*": lambda pc, o: pc * o, "/": lambda pc, o: pc / o}[op]
    bad = [("o", "text", "a", NI), ("o", "none", None, NI), ("o", "list", [1.0, 2.0, 3.0], NI), ("o", "another batch", pc, NI)]
    bad += [("o", "other batch size", torch.ones(b + 1, max(n, 1), 3), BR), ("o", "extra dimension", torch.ones(2, b, 1, 3), BR), ("o", "2 coordinates", torch.ones(2), BR)]
    if rng.random() < .15:      # the checks on the operand do not depend on what the batch holds
        pc, bad = type(pc)(), bad[:3]
    return Call("Pointclouds " + op, f, dict(pc=pc, o=o), bad)


def g_pc_arith_(rng, v):
    m, pc = _cloud(rng, v)
    b, n = m.B, max(m.sizes())
    op = str(rng.choice(["offset_", "scale_"]))
    sh = [(), (3,), (1, 1, 3), (b, 1, 3), (b, n, 3), (b, 1, 1)][int(rng.integers(0, 6))]
    o = float(rng.uniform(.5, 2)) if rng.random() < .2 else v.t(rng.uniform(.5, 2, sh))
    bad = [("o", "text", "a", TE), ("o", "none", None, TE), ("o", "list", [1.0, 2.0, 3.0], TE), ("o", "another batch", pc, TE), ("o", "array", np.ones(3), TE)]
    bad += [("o", "other batch size", torch.ones(b + 1, max(n, 1), 3), BR), ("o", "extra dimension", torch.ones(2, b, 1, 3), BR), ("o", "2 coordinates", torch.ones(2), BR)]
    if rng.random() < .15:
        pc, bad = type(pc)(), bad[:5]
    return Call("Pointclouds." + op, lambda pc, o: getattr(pc, op)(o), dict(pc=pc, o=o), bad, change=["pc"])


def g_pc_motion(rng, v):
    m, pc = _cloud(rng, v)
    b = m.B
    op = str(rng.choice(["rotate", "rotate_", "transform", "transform_", "matmul"]))
    k = 3 if op.startswith("rot") or (op == "matmul" and rng.random() < .5) else 4
    lead = (b,) if rng.random() < .5 else ()
    t = v.t(gen.rigids(rng, lead)[..., :k, :k])
    pre = bool(rng.random() < .5)
    f = (lambda pc, t: pc @ t) if op == "matmul" else (lambda pc, t: getattr(pc, op)(t, pre_multiplication=pre))
    te = NI if op == "matmul" else TE
    bad = B("t", not_tensor(t), te) + [("t", "vector", t.detach().reshape(-1).clone(), VE), ("t", "fewer rows", t.detach()[..., :-1, :].clone(), VE), ("t", "fewer columns", t.detach()[..., :-1].clone(), VE), ("t", "4 dimensions", t.detach().reshape(1, -1, k, k).clone(), VE), ("t", "other batch size", torch.eye(k).repeat(b + 1, 1, 1), VE), ("t", "2x2", torch.eye(2), VE)]
    if op != "matmul":
        bad.append(("t", "4x4 for a rotation" if k == 3 else "3x3 for a transform", torch.eye(7 - k), VE))
    if rng.random() < .15:
        pc, t = type(pc)(), v.t(gen.rigid(rng)[:k, :k])
    return Call("Pointclouds." + op, f, dict(pc=pc, t=t), bad, change=["pc"] if op.endswith("_") else [])


def g_pc_pinhole(rng, v):
    m, pc = _cloud(rng, v)
    ip = rng.random() < .5
    K = gen.intrinsics(rng, 6, 6)
    t = v.t(K if rng.random() < .5 else np.broadcast_to(K, (m.B, 4, 4)))
    op = "pinhole_projection_" if ip else "pinhole_projection"
    bad = B("t", not_tensor(t), TE) + [("t", "3x3", t.detach()[..., :3, :3].clone(), VE), ("t", "vector", t.detach().reshape(-1).clone(), VE), ("t", "4 dimensions", t.detach().reshape(1, -1, 4, 4).clone(), VE), ("t", "other batch size", torch.eye(4).repeat(m.B + 1, 1, 1), VE)]
    if rng.random() < .15:
        pc, t, bad = type(pc)(), v.t(K), [x for x in bad if x[1] != "other batch size"]
    return Call("Pointclouds." + op, lambda pc, t: getattr(pc, op)(t), dict(pc=pc, t=t), bad, change=["pc"] if ip else [])


def g_pc_set(rng, v):
    m, pc = _cloud(rng, v)
    a = str(rng.choice(ATTRS))
    C = int(rng.integers(1, 5)) if a == "features" else 3
    rep = str(rng.choice(["list", "padded"]))
    vals = [rng.normal(size=(n, C)) for n in m.sizes()]
    name = a + "_" + rep

    def f(pc, val):
        setattr(pc, name, val)
        return pc
    if rep == "list":
        val = [v.t(x) for x in vals]
        q = [x.detach() for x in val]
        bad = [("val", "tensor", torch.rand(m.B, max(m.sizes()), C), TE), ("val", "text", "x", TE), ("val", "none", None, TE), ("val", "tuple", tuple(q), TE), ("val", "one item too many", q + q[:1], VE), ("val", "one item too few", q[:-1], VE), ("val", "one row too many", q[:-1] + [torch.rand(len(q[-1]) + 1, C)], VE),
               ("val", "item of 1 dimension", q[:-1] + [torch.rand(3)], VE), ("val", "item of 3 dimensions", q[:-1] + [torch.rand(1, 2, 3)], VE), ("val", "array items", [x.numpy().copy() for x in q], TE)]
        if a != "features":
            bad.append(("val", "4 channels", q[:-1] + [torch.rand(len(q[-1]), 4)], VE))
    else:
        n = max(m.sizes())
        p = np.zeros((m.B, n, C))
        for i, x in enumerate(vals):
            p[i, :len(x)] = x
        val = v.t(p)
        q = val.detach()
        bad = B("val", not_tensor(val), TE) + [("val", "matrix", q[0].clone(), VE), ("val", "4 dimensions", q[None].clone(), VE), ("val", "other batch size", torch.cat([q, q[:1]], 0), VE), ("val", "one point more", torch.cat([q, torch.zeros(m.B, 1, C, dtype=q.dtype)], 1), VE)]
        if a != "features":
            bad.append(("val", "4 channels", torch.cat([q, q[..., :1]], -1), VE))
        if min(m.sizes()) < n:
            bad.append(("val", "values in the padding", torch.ones_like(q), VE))
    return Call("Pointclouds.%s =" % name, f, dict(pc=pc, val=val), bad, change=["pc"])


def g_pc_set_empty(rng, v):
    from gradslam.structures.pointclouds import Pointclouds
    a = str(rng.choice(ATTRS))
    rep = str(rng.choice(["list", "padded"]))
    pc = Pointclouds()
    val = [torch.rand(2, 3)] if rep == "list" else torch.rand(1, 2, 3)

    def f(pc, val, really=False):
        if really:
            setattr(pc, a + "_" + rep, val)
        return len(pc)
    return Call("empty Pointclouds", f, dict(pc=pc, val=val, really=False), [("really", "set %s_%s of an empty batch" % (a, rep), True, VE)])


def g_pc_append(rng, v):
    Bn = int(rng.integers(1, 4))
    attrs = ["points"] + [a for a in ATTRS[1:] if rng.random() < .7]
    C = int(rng.integers(1, 4))
    m1 = random_model(rng, B=Bn, attrs=attrs, dtype=v.dtype, C=C)
    m2 = random_model(rng, B=Bn, attrs=attrs, dtype=v.dtype, C=C)
    pc = v.pc(m1) if rng.random() < .8 else __import__("gradslam").structures.pointclouds.Pointclouds()
    o = v.pc(m2)
    bad = B("o", not_pc(), TE)
    if pc.has_points:
        bad.append(("o", "other batch size", v.pc(random_model(rng, B=Bn + 1, attrs=attrs, dtype=v.dtype, C=C)), VE))
        for a in ATTRS[1:]:
            at = [x for x in ATTRS if (x in attrs) != (x == a)]
            bad.append(("o", ("without " if a in attrs else "with ") + a, v.pc(random_model(rng, B=Bn, attrs=at, dtype=v.dtype, C=C)), VE))
        if "features" in attrs:
            bad.append(("o", "more features", v.pc(random_model(rng, B=Bn, attrs=attrs, dtype=v.dtype, C=C + 1)), VE))
            if C > 1:
                bad.append(("o", "fewer features", v.pc(random_model(rng, B=Bn, attrs=attrs, dtype=v.dtype, C=C - 1)), VE))
    return Call("append_points", lambda pc, o: pc.append_points(o), dict(pc=pc, o=o), bad, change=["pc"])


def g_pc_copy(rng, v):
    m, pc = _cloud(rng, v)
    op = str(rng.choice(["clone", "detach", "cpu", "to", "to_copy", "views"]))
    f = {"clone": lambda pc: pc.clone(), "detach": lambda pc: pc.detach(), "cpu": lambda pc: pc.cpu(), "to": lambda pc: pc.to("cpu"), "to_copy": lambda pc: pc.to("cpu", copy=True),
         "views": lambda pc: [pc.points_padded, pc.normals_padded, pc.colors_padded, pc.features_padded, pc.points_list, pc.nonpad_mask, pc.num_points_per_pointcloud, pc.num_features]}[op]
    return Call("Pointclouds." + op, f, dict(pc=pc))


def g_pc_export(rng, v):
    m = random_model(rng, dtype=v.dtype, B=int(rng.integers(1, 4)), sizes=None, ragged=True)
    if min(m.sizes()) == 0:
        m = random_model(rng, dtype=v.dtype, sizes=[3, 5])
    pc = v.pc(m)
    op = str(rng.choice(["plotly", "open3d"]))
    fig = bool(rng.random() < .3)
    i = int(rng.integers(0, m.B))
    f = (lambda pc, i: pc.plotly(i, as_figure=fig)) if op == "plotly" else (lambda pc, i: pc.open3d(i, include_normals=fig))
    return Call("Pointclouds." + op, f, dict(pc=pc, i=i), [("i", "float", 0.0, TE), ("i", "text", "0", TE), ("i", "none", None, TE), ("i", "slice", slice(0, 1), TE), ("i", "list", [0], TE), ("i", "past the end", m.B, VE)])


def g_rgbd_export(rng, v):
    r, x = _frames(rng, v, cf=False)
    dep = bool(rng.random() < .6)
    fig = bool(rng.random() < .3)
    i = int(rng.integers(0, r.shape[0]))
    return Call("RGBDImages.plotly", lambda x, i: x.plotly(i, include_depth=dep, as_figure=fig), dict(x=x, i=i), [("i", "float", 0.0, TE), ("i", "text", "0", TE), ("i", "none", None, TE), ("i", "slice", slice(0, 1), TE), ("i", "past the end", r.shape[0], VE)])


def g_rgbd_copy(rng, v):
    r, x = _frames(rng, v)
    op = str(rng.choice(["clone", "detach", "cpu", "to", "to_copy", "first", "last", "first_copy", "last_copy", "views"]))
    f = {"clone": lambda x: x.clone(), "detach": lambda x: x.detach(), "cpu": lambda x: x.cpu(), "to": lambda x: x.to("cpu"), "to_copy": lambda x: x.to("cpu", copy=True), "first": lambda x: x.to_channels_first(), "last": lambda x: x.to_channels_last(),
         "first_copy": lambda x: x.to_channels_first(copy=True), "last_copy": lambda x: x.to_channels_last(copy=True), "views": lambda x: [x.vertex_map, x.normal_map, x.global_vertex_map, x.global_normal_map, x.valid_depth_mask]}[op]
    return Call("RGBDImages." + op, f, dict(x=x))


def g_rgbd_layout_(rng, v):
    r, x = _frames(rng, v)
    op = str(rng.choice(["to_channels_first_", "to_channels_last_"]))
    return Call("RGBDImages." + op, lambda x: getattr(x, op)(), dict(x=x), change=["x"])


def g_rgbd_set(rng, v):
    r, x = _frames(rng, v)
    a = str(rng.choice(["rgb_image", "depth_image", "intrinsics", "poses"]))
    old = getattr(x, a).detach()
    val = v.t(old.numpy() * rng.uniform(.9, 1.1) if a != "poses" else gen.rigids(rng, r.shape[:2]))

    def f(x, val):
        setattr(x, a, val)
        return x
    q = val.detach()
    bad = B("val", not_tensor(val, none=False), TE) + [("val", "one dimension fewer", q[0].clone(), VE), ("val", "one dimension more", q[None].clone(), VE), ("val", "other batch size", torch.cat([q, q[:1]], 0), VE), ("val", "other sequence length", torch.cat([q, q[:, :1]], 1), VE), ("val", "one channel more", torch.cat([q, q[..., :1]], -1), VE)]
    if "image" in a:
        w = torch.movedim(q, 2, -1) if x.channels_first else torch.movedim(q, -1, 2)
        if tuple(w.shape) != tuple(q.shape):
            bad.append(("val", "the other layout", w.contiguous(), VE))
    return Call("RGBDImages.%s =" % a, f, dict(x=x, val=val), bad, change=["x"])


def g_pcs_from_rgbd(rng, v):
    from gradslam.structures.utils import pointclouds_from_rgbdimages as f
    r, x = _frames(rng, v, L=1)
    g, m = bool(rng.random() < .6), bool(rng.random() < .6)
    _, y = _frames(rng, v, L=2)
    return Call("pointclouds_from_rgbdimages", lambda x: f(x, global_coordinates=g, filter_missing_depths=m), dict(x=x), B("x", not_rgbd(), TE) + [("x", "two frames", y, VE)])


# ------------------------------------------------------------------ fusion
def _map(rng, v, Bn=None, attrs="PNCc"):
    r = mapmodel.surface_rgbd(rng, B=Bn or int(rng.integers(1, 3)), dtype=v.dtype, missing=str(rng.choice(["none", "some", "block"])), max_angle=.5)
    els = [mapmodel.map_for_frame(rng, fr, int(rng.integers(1, 30))) for fr in mapmodel.frames_of(r)]
    from gradslam.structures.pointclouds import Pointclouds
    cols = {"P": [v.t(e.P) for e in els], "N": [v.t(e.N) for e in els], "C": [v.t(e.C) for e in els], "c": [v.t(e.c) for e in els]}
    pc = Pointclouds(cols["P"], cols["N"] if "N" in attrs else None, cols["C"] if "C" in attrs else None, cols["c"] if "c" in attrs else None)
    if rng.random() < .4:
        pc.points_padded, pc.nonpad_mask
    return r, pc, v.rgbd(r)


def _without(rng, pc, *attrs):
    from gradslam.structures.pointclouds import Pointclouds
    return Pointclouds(*[None if a in attrs or getattr(pc, a + "_list") is None else [t.detach().clone() for t in getattr(pc, a + "_list")] for a in ATTRS])


def _seq2(rng, v, Bn):
    return _frames(rng, v, L=2, Bn=Bn)[1]


def _table(pc, x):
    from gradslam.slam import fusionutils as fu
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with torch.no_grad():
            return fu.find_active_map_points(pc.clone().detach(), x.clone().detach())


def _tablebad(arg, t):
    return B(arg, [("list", t.tolist()), ("none", None), ("text", "t")], TE) + [(arg, "float table", t.double(), TE), (arg, "int32 table", t.int(), TE), (arg, "vector", t.reshape(-1)[:4].clone() if t.numel() else torch.zeros(4).long(), VE), (arg, "3 columns", t[:, :3].clone(), VE), (arg, "5 columns", torch.cat([t, t[:, :1]], 1), VE), (arg, "3 dimensions", t[None].clone(), VE)]


NUMS = [("text", "0.1"), ("none", None), ("list", [0.1]), ("tensor", torch.tensor(0.1))]


def g_alpha(rng, v):
    from gradslam.slam import fusionutils as fu
    d = int(rng.integers(0, 3))
    sh = [2, 4, 5]
    sh[d] = 3
    p = v.t(rng.normal(size=sh))
    s = float(rng.uniform(.3, 1)) if rng.random() < .6 else torch.tensor(.6, dtype=v.dtype) if rng.random() < .6 else 1
    bad = B("points", not_tensor(p), TE) + B("sigma", [("text", ".6"), ("none", None), ("list", [.6])], TE) + [("sigma", "vector", torch.tensor([.6]), VE), ("eps", "int", 1, TE), ("eps", "none", None, TE), ("dim", "dimension of another length", (d + 1) % 3, VE)]
    return Call("get_alpha", lambda points, sigma, eps, dim: fu.get_alpha(points, sigma, dim=dim, eps=eps), dict(points=p, sigma=s, eps=1e-7, dim=d), bad)


def g_close(rng, v):
    from gradslam.slam import fusionutils as fu
    sim = rng.random() < .5
    f = fu.are_normals_similar if sim else fu.are_points_close
    sh = tuple(int(s) for s in rng.integers(1, 4, int(rng.integers(0, 3)))) + (3,)
    a, b = v.t(rng.normal(size=sh)), v.t(rng.normal(size=sh))
    th = float(rng.uniform(0, 1)) if rng.random() < .8 else 1
    bad = B("a", not_tensor(a), TE) + B("b", not_tensor(b), TE) + B("th", NUMS, TE) + [("a", "other shape", a.detach()[None].clone(), VE), ("b", "4 coordinates", torch.cat([b.detach(), b.detach()[..., :1]], -1), VE)]
    bad += [("dim", "dimension of another length", 0, VE)] if len(sh) > 1 and sh[0] != 3 else []
    return Call("are_normals_similar" if sim else "are_points_close", lambda a, b, th, dim: f(a, b, th, dim), dict(a=a, b=b, th=th, dim=-1), bad)


def g_find_active(rng, v):
    from gradslam.slam import fusionutils as fu
    r, pc, x = _map(rng, v)
    b = r.shape[0]
    bad = B("pc", not_pc(), TE) + B("x", not_rgbd(), TE) + [("x", "two frames", _seq2(rng, v, b), VE), ("x", "other batch size", _frames(rng, v, L=1, Bn=b + 1)[1], VE)]
    if rng.random() < .2:
        pc, bad = type(pc)(), bad[:-1]
    return Call("find_active_map_points", lambda pc, x: fu.find_active_map_points(pc, x), dict(pc=pc, x=x), bad)


def g_find_similar(rng, v):
    from gradslam.slam import fusionutils as fu
    r, pc, x = _map(rng, v)
    b = r.shape[0]
    t = _table(pc, x)
    bad = B("pc", not_pc(), TE) + B("x", not_rgbd(), TE) + _tablebad("t", t) + [("x", "two frames", _seq2(rng, v, b), VE)]
    if len(t):
        bad += [("x", "other batch size", _frames(rng, v, L=1, Bn=b + 1)[1], VE), ("pc", "without normals", _without(rng, pc, "normals"), VE)] + B("dist", NUMS, TE) + B("dot", NUMS, TE)
    return Call("find_similar_map_points", lambda pc, x, t, dist, dot: fu.find_similar_map_points(pc, x, t, dist, dot), dict(pc=pc, x=x, t=t, dist=.1, dot=.5), bad)


def g_find_best(rng, v):
    from gradslam.slam import fusionutils as fu
    r, pc, x = _map(rng, v)
    b = r.shape[0]
    t = _table(pc, x)
    bad = B("pc", not_pc(), TE) + B("x", not_rgbd(), TE) + _tablebad("t", t) + [("x", "two frames", _seq2(rng, v, b), VE)]
    if len(t):
        bad += [("x", "other batch size", _frames(rng, v, L=1, Bn=b + 1)[1], VE), ("pc", "without features", _without(rng, pc, "features"), VE)]
    return Call("find_best_unique_correspondences", lambda pc, x, t: fu.find_best_unique_correspondences(pc, x, t), dict(pc=pc, x=x, t=t), bad)


def g_find_corr(rng, v):
    from gradslam.slam import fusionutils as fu
    r, pc, x = _map(rng, v)
    b = r.shape[0]
    bad = B("pc", not_pc(), TE) + B("x", not_rgbd(), TE) + [("x", "two frames", _seq2(rng, v, b), VE), ("x", "other batch size", _frames(rng, v, L=1, Bn=b + 1)[1], VE)]
    if rng.random() < .2:
        pc, bad = type(pc)(), bad[:-1]
    return Call("find_correspondences", lambda pc, x: fu.find_correspondences(pc, x, .1, .5), dict(pc=pc, x=x), bad)


def _bad_maps(rng, pc):
    if pc.has_features:
        two = pc.clone()
        two.features_list = [torch.cat([q, q], -1) for q in pc.detach().features_list]
        return [("pc", "two features", two, VE)] + _bad_maps_without(rng, pc)
    return _bad_maps_without(rng, pc)


def _bad_maps_without(rng, pc):
    return [("pc", "without " + a, _without(rng, pc, a), VE) for a in ATTRS[1:] if getattr(pc, a + "_list") is not None]


def g_fuse(rng, v):
    from gradslam.slam import fusionutils as fu
    r, pc, x = _map(rng, v)
    b = r.shape[0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with torch.no_grad():
            t = fu.find_correspondences(pc.clone().detach(), x.clone().detach(), .2, .3)
    ip = bool(rng.random() < .5)
    bad = B("pc", not_pc(), TE) + B("x", not_rgbd(), TE) + _tablebad("t", t) + _bad_maps(rng, pc) + B("sigma", [("text", ".6"), ("none", None), ("list", [.6])], TE) + [("sigma", "vector", torch.tensor([.6]), VE)]
    bad += [("x", "other batch size", _frames(rng, v, L=1, Bn=b + 1, h=r.depth.shape[2], w=r.depth.shape[3])[1], VE)]
    return Call("fuse_with_map" + ("(inplace)" if ip else ""), lambda pc, x, t, sigma: fu.fuse_with_map(pc, x, t, sigma, ip), dict(pc=pc, x=x, t=t, sigma=.6), bad, change=["pc"] if ip else [])


def g_update_map(rng, v):
    from gradslam.slam import fusionutils as fu
    agg = rng.random() < .5
    r, pc, x = _map(rng, v, attrs="PNC" if agg else "PNCc")
    if rng.random() < .15:
        pc = type(pc)()
    b = r.shape[0]
    ip = bool(rng.random() < .5)
    f = (lambda pc, x: fu.update_map_aggregate(pc, x, ip)) if agg else (lambda pc, x: fu.update_map_fusion(pc, x, .1, .5, .6, ip))
    bad = B("pc", not_pc(), TE) + B("x", not_rgbd(), TE) + [("x", "two frames", _seq2(rng, v, b), VE)]
    if pc.has_points:
        bad += [("x", "other batch size", _frames(rng, v, L=1, Bn=b + 1)[1], VE)]
        bad += [("pc", "without " + a, _without(rng, pc, a), VE) for a in (("normals", "colors") if agg else ATTRS[1:])]
    return Call("update_map_%s%s" % ("aggregate" if agg else "fusion", "(inplace)" if ip else ""), f, dict(pc=pc, x=x), bad, change=["pc"] if ip else [])


# ------------------------------------------------------------------ odometry
def g_solve(rng, v):
    from gradslam.odometry import icputils as u
    n = int(rng.integers(6, 20))
    A, b = v.t(rng.normal(size=(n, 6))), v.t(rng.normal(size=(n, 1)))
    d = 1e-6 if rng.random() < .5 else torch.tensor(1e-4, dtype=v.dtype)
    bad = B("A", not_tensor(A), TE) + B("b", not_tensor(b), TE) + B("d", [("text", "1"), ("none", None), ("list", [1e-3])], TE) + [("d", "vector", torch.tensor([1e-3]), VE), ("A", "batch", A.detach()[None].clone(), VE), ("A", "vector", A.detach()[0].clone(), VE), ("b", "vector", b.detach()[:, 0].clone(), VE), ("b", "two columns", b.detach().repeat(1, 2), VE), ("b", "one row more", torch.cat([b.detach(), b.detach()[:1]], 0), VE), ("A", "one row more", torch.cat([A.detach(), A.detach()[:1]], 0), VE)]
    return Call("solve_linear_system", lambda A, b, d: u.solve_linear_system(A, b, d), dict(A=A, b=b, d=d), bad)


def _pair(rng, v):
    ns, nt = int(rng.integers(4, 20)), int(rng.integers(6, 20))
    s = rng.normal(size=(1, ns, 3))
    t = rng.normal(size=(1, nt, 3))
    n = rng.normal(size=(1, nt, 3))
    n /= np.linalg.norm(n, axis=-1, keepdims=True)
    return v.t(s), v.t(t), v.t(n)


def _pairbad(s, t, n):
    bad = B("s", not_tensor(s), TE) + B("t", not_tensor(t), TE) + B("n", not_tensor(n), TE)
    for k, x in (("s", s), ("t", t), ("n", n)):
        q = x.detach()
        bad += [(k, "matrix", q[0].clone(), VE), (k, "4 dimensions", q[None].clone(), VE), (k, "two clouds", q.repeat(2, 1, 1), VE), (k, "2 coordinates", q[..., :2].clone(), VE), (k, "4 coordinates", torch.cat([q, q[..., :1]], -1), VE)]
    bad += [("n", "one normal more", torch.cat([n.detach(), n.detach()[:, :1]], 1), VE), ("t", "one point more", torch.cat([t.detach(), t.detach()[:, :1]], 1), VE)]
    return bad


TH = [("text", "0.1"), ("list", [0.1]), ("tensor", torch.tensor(0.1))]


def g_gauss_newton(rng, v):
    from gradslam.odometry import icputils as u
    s, t, n = _pair(rng, v)
    th = None if rng.random() < .5 else 2.0
    return Call("gauss_newton_solve", lambda s, t, n, th: u.gauss_newton_solve(s, t, n, th), dict(s=s, t=t, n=n, th=th), _pairbad(s, t, n) + B("th", TH, TE))


def g_icp(rng, v):
    from gradslam.odometry import icputils as u
    s, t, n = _pair(rng, v)
    grad = rng.random() < .5
    f = u.point_to_plane_gradICP if grad else u.point_to_plane_ICP
    T0 = v.t(gen.rigid(rng, .1, .1)) if rng.random() < .8 else None
    it = int(rng.integers(1, 4))
    bad = _pairbad(s, t, n) + B("th", TH, TE) + [("T0", "text", "x", TE), ("T0", "array", np.eye(4), TE), ("T0", "list", np.eye(4).tolist(), TE), ("T0", "batch", torch.eye(4, dtype=v.dtype)[None], VE), ("T0", "3x4", torch.eye(4, dtype=v.dtype)[:3], VE), ("T0", "4x3", torch.eye(4, dtype=v.dtype)[:, :3], VE), ("T0", "vector", torch.ones(4, dtype=v.dtype), VE),
                                                ("it", "float", 2.0, TE), ("it", "none", None, TE), ("it", "text", "2", TE), ("it", "tensor", torch.tensor(2), TE)]
    args = dict(s=s, t=t, n=n, T0=T0, it=it, th=None if rng.random() < .6 else 5.0)
    if grad:
        num = lambda x: int(x) if rng.random() < .4 else float(x)
        args.update(lam=num(2), B=num(1), B2=num(1), nu=num(200))
        for k in ("lam", "B", "B2", "nu"):
            bad += B(k, NUMS, TE)
        return Call("point_to_plane_gradICP", lambda s, t, n, T0, it, th, lam, B, B2, nu: f(s, t, n, T0, it, 1e-8, th, lam, B, B2, nu), args, bad)
    return Call("point_to_plane_ICP", lambda s, t, n, T0, it, th: f(s, t, n, T0, it, 1e-8, th), args, bad)


def g_ds_pc(rng, v):
    from gradslam.odometry import icputils as u
    r, pc, x = _map(rng, v)
    t = _table(pc, x)
    tb = [b for b in _tablebad("t", t) if "float" not in b[1] and "int32" not in b[1]]
    return Call("downsample_pointclouds", lambda pc, t, k: u.downsample_pointclouds(pc, t, k), dict(pc=pc, t=t, k=int(rng.integers(1, 4))), B("pc", not_pc(), TE) + tb + [("k", "float", 2.0, TE), ("k", "none", None, TE), ("k", "text", "2", TE)])


def g_ds_rgbd(rng, v):
    from gradslam.odometry import icputils as u
    r, x = _frames(rng, v, L=1)
    return Call("downsample_rgbdimages", lambda x, k: u.downsample_rgbdimages(x, k), dict(x=x, k=int(rng.integers(1, 4))), B("x", not_rgbd(), TE) + [("k", "float", 2.0, TE), ("k", "none", None, TE), ("k", "text", "2", TE), ("x", "two frames", _seq2(rng, v, r.shape[0]), VE)])


def g_provider(rng, v):
    from gradslam.odometry.icp import ICPOdometryProvider
    from gradslam.odometry.gradicp import GradICPOdometryProvider
    P = ICPOdometryProvider if rng.random() < .5 else GradICPOdometryProvider
    b = int(rng.integers(1, 3))
    mp = random_model(rng, B=b, attrs=["points", "normals"] + (["colors"] if rng.random() < .5 else []), dtype=v.dtype, sizes=[int(s) for s in rng.integers(6, 12, b)])
    fr = random_model(rng, B=b, attrs=["points"] + (["normals"] if rng.random() < .5 else []), dtype=v.dtype, sizes=[int(s) for s in rng.integers(6, 12, b)])
    mpc, fpc = v.pc(mp), v.pc(fr)
    p = P(numiters=2)
    more = random_model(rng, B=b + 1, attrs=["points", "normals"], dtype=v.dtype, sizes=[6] * (b + 1))
    bad = B("m", not_pc(), TE) + B("f", not_pc(), TE) + [("m", "without normals", v.pc(random_model(rng, B=b, attrs=["points", "colors"], dtype=v.dtype, sizes=[6] * b)), VE), ("m", "other batch size", v.pc(more), VE), ("f", "other batch size", v.pc(more), VE)]
    return Call(P.__name__ + ".provide", lambda m, f: p.provide(m, f), dict(m=mpc, f=fpc), bad)


def g_gt_provider(rng, v):
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    b = int(rng.integers(1, 3))
    _, x = _frames(rng, v, L=1, Bn=b)
    _, y = _frames(rng, v, L=1, Bn=b)
    p = GroundTruthOdometryProvider()
    bad = []
    for k in ("x", "y"):
        bad += B(k, not_rgbd(), TE) + [(k, "without poses", _frames(rng, v, L=1, Bn=b, poses=False)[1], VE), (k, "two frames", _seq2(rng, v, b), VE), (k, "other batch size", _frames(rng, v, L=1, Bn=b + 1)[1], VE)]
    return Call("GroundTruthOdometryProvider.provide", lambda x, y: p.provide(x, y), dict(x=x, y=y), bad)


# ------------------------------------------------------------------ SLAM
def _slam(rng, odom):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    if rng.random() < .5:
        return PointFusion(odom=odom, dsratio=1, numiters=2), True
    return ICPSLAM(odom=odom, dsratio=1, numiters=2), False


def g_slam_new(rng, v):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    bad = [("odom", "unknown name", "visual", VE), ("odom", "empty", "", VE), ("odom", "none", None, VE + TE)]
    if rng.random() < .5:
        return Call("ICPSLAM()", lambda odom: ICPSLAM(odom=odom).odom, dict(odom=str(rng.choice(["gt", "icp", "gradicp"]))), bad)
    return Call("PointFusion()", lambda odom, dist_th, angle_th: PointFusion(odom=odom, dist_th=dist_th, angle_th=angle_th).odom, dict(odom=str(rng.choice(["gt", "icp", "gradicp"])), dist_th=.05 if rng.random() < .6 else 1, angle_th=20 if rng.random() < .5 else 12.5), bad + B("dist_th", NUMS, TE) + B("angle_th", NUMS, TE))


def g_slam_step(rng, v):
    odom = str(rng.choice(["gt", "icp", "gradicp"]))
    slam, fusion = _slam(rng, odom)
    b = int(rng.integers(1, 3))
    r = scene.sequence(rng, b, 2, 6, 7, v.dtype)
    x = v.rgbd(r)
    from gradslam.structures.pointclouds import Pointclouds
    pc = Pointclouds()
    first = rng.random() < .3
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with torch.no_grad():
            if not first:
                pc, _ = slam.step(pc, x[:, 0].detach().clone(), None)
    live = x[:, 1].clone() if not first else x[:, 0].clone()
    prev = None if first or odom == "gt" else x[:, 0].clone()
    if prev is not None and rng.random() < .2:
        prev = None             # (registers nothing: the pose of the live frame is used)
    if prev is not None and rng.random() < .4:
        live = v.rgbd(gen.Rgbd(r.rgb[:, 1:], r.depth[:, 1:], r.K, None, r.dtype))
    ip = bool(rng.random() < .4)
    sub = lambda q: v.rgbd(q)
    other = gen.Rgbd(np.concatenate([r.rgb, r.rgb[:1]])[:, :1], np.concatenate([r.depth, r.depth[:1]])[:, :1], np.concatenate([r.K, r.K[:1]]), np.concatenate([r.poses, r.poses[:1]])[:, :1], r.dtype)
    noposes = gen.Rgbd(r.rgb[:, :1], r.depth[:, :1], r.K, None, r.dtype)
    bad = B("pc", not_pc(), TE) + B("live", not_rgbd(), TE) + [("prev", "tensor", torch.rand(1, 1, 2, 2, 3), TE), ("prev", "text", "prev", TE), ("prev", "a map", pc.clone(), TE)]
    if not first:
        bad += [("live", "other batch size", sub(other), VE)]
        wrong = slam.step(Pointclouds(), sub(other), None)[0] if True else None
        bad += [("pc", "other batch size", wrong.detach(), VE)]
    if prev is not None:
        bad += [("prev", "without poses", sub(noposes), VE), ("prev", "other batch size", sub(other), VE)]
    else:
        bad += [("live", "without poses", sub(noposes), VE), ("live", "two frames", sub(r), VE)]
    return Call("%s.step(%s%s)" % ("PointFusion" if fusion else "ICPSLAM", odom, ", inplace" if ip else ""), lambda pc, live, prev: slam.step(pc, live, prev, inplace=ip), dict(pc=pc, live=live, prev=prev), bad, change=["pc", "live"] if ip else [])


def g_slam_forward(rng, v):
    odom = str(rng.choice(["gt", "icp", "gradicp"]))
    slam, fusion = _slam(rng, odom)
    r = scene.sequence(rng, int(rng.integers(1, 3)), int(rng.integers(1, 4)), 6, 7, v.dtype)
    nop = gen.Rgbd(r.rgb, r.depth, r.K, None, r.dtype)
    x = v.rgbd(nop if odom != "gt" and rng.random() < .4 else r)
    bad = B("frames", not_rgbd(), TE)
    if odom == "gt" and r.shape[1] > 1:
        bad += [("frames", "without poses", v.rgbd(nop), VE)]
    return Call("%s(%s)" % ("PointFusion" if fusion else "ICPSLAM", odom), lambda frames: slam(frames), dict(frames=x), bad)


CATALOGUE = [g for n, g in sorted(globals().items()) if n.startswith("g_")]
