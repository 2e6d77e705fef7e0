"""Random inputs shared by the workloads (all drawn from ctx.rng)."""
import numpy as np
import torch


def dt(rng, p64=0.4):
    return torch.float64 if rng.random() < p64 else torch.float32


def tol(dtype, scale=1.0):
    """(rtol, atol) adequate for a short chain of well-conditioned operations."""
    if dtype == torch.float64:
        return 1e-8, 1e-8 * max(1.0, scale)
    return 2e-4, 2e-4 * max(1.0, scale)


def T(a, dtype=torch.float32, grad=False):
    t = torch.tensor(np.ascontiguousarray(a), dtype=dtype)
    return t.requires_grad_() if grad else t


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.0]])


def rodrigues(w):
    th = np.linalg.norm(w)
    K = hat(w)
    if th < 1e-12:
        return np.eye(3) + K + 0.5 * K @ K
    return np.eye(3) + np.sin(th) / th * K + (1 - np.cos(th)) / th ** 2 * K @ K


def rotation(rng, max_angle=np.pi):
    a = rng.normal(size=3)
    a /= np.linalg.norm(a) + 1e-12
    return rodrigues(a * rng.uniform(0, max_angle))


def rigid(rng, max_angle=np.pi, max_t=1.0):
    M = np.eye(4)
    M[:3, :3] = rotation(rng, max_angle)
    M[:3, 3] = rng.uniform(-max_t, max_t, 3)
    return M


def rigids(rng, shape, **kw):
    n = int(np.prod(shape)) if len(shape) else 1
    return np.stack([rigid(rng, **kw) for _ in range(n)]).reshape(*shape, 4, 4)


def intrinsics(rng, h, w, skew=None):
    K = np.eye(4)
    f = rng.uniform(0.7, 1.8) * max(h, w, 2)
    K[0, 0] = f * rng.uniform(0.8, 1.25)
    K[1, 1] = f
    K[0, 2] = (w - 1) / 2 + rng.uniform(-0.2, 0.2) * w
    K[1, 2] = (h - 1) / 2 + rng.uniform(-0.2, 0.2) * h
    if skew is None:
        skew = rng.random() < 0.3
    if skew:
        K[0, 1] = rng.uniform(-0.2, 0.2) * f
    return K


def unusual_camera(rng, K, h, w):
    """in place: square or mirrored pixels (ICL-NUIM's focal length is negative), a principal point on the border or
    outside the image, very long and very short focal lengths"""
    k = rng.random()
    if k < .2:
        K[0, 0] = K[1, 1]
        K[0, 1] = 0
    elif k < .4:
        K[(0, 1), (0, 1)] *= [(1, -1), (-1, 1), (-1, -1)][int(rng.integers(0, 3))]
    elif k < .6:
        K[0, 2], K[1, 2] = [(0, 0), (-.7 * w, K[1, 2]), (1.8 * w, K[1, 2]), (K[0, 2], 2.1 * h), (K[0, 2], -.4 * h)][int(rng.integers(0, 5))]
    elif k < .8:
        f = 10 ** rng.uniform(.5, 2.7)
        K[0, 0] *= f
        K[1, 1] *= f
    else:
        f = rng.uniform(.1, .6)
        K[0, 0] *= f
        K[1, 1] *= f
    return K


SPECIAL_R = [np.eye(3), np.diag([1.0, -1, -1]), np.diag([-1.0, -1, 1]), np.array([[0, -1.0, 0], [1, 0, 0], [0, 0, 1]]), np.array([[0, 0, 1.0], [1, 0, 0], [0, 1, 0]])]


def unusual_poses(rng, P):
    """far away or tiny translations, none at all, exact quarter and half turns"""
    P = P.copy()
    k = rng.random()
    if k < .5:
        P[..., :3, 3] *= 10 ** rng.uniform(-4, 4)
    elif k < .65:
        P[..., :3, 3] = 0
    if rng.random() < .35:
        P[..., :3, :3] = SPECIAL_R[int(rng.integers(0, len(SPECIAL_R)))]
    return P


MISSING = [.24, .33, .1, .1, .07, .04, .05, .04, .03]


def depth_image(rng, h, w, missing=None, kind=None, dmin=0.6, dmax=4.0):
    """(h, w) depth with a pattern of missing (0, sometimes negative or NaN) values."""
    kind = kind or rng.choice(["noise", "plane", "bumps", "steps"])
    yy, xx = np.mgrid[0:h, 0:w]
    if kind == "noise":
        d = rng.uniform(dmin, dmax, (h, w))
    elif kind == "plane":
        d = 2.0 + 0.5 * (xx / max(w, 1) - 0.5) * rng.uniform(-1, 1) + 0.5 * (yy / max(h, 1) - 0.5) * rng.uniform(-1, 1)
    elif kind == "steps":
        d = np.where((xx // 3 + yy // 2) % 2 == 0, 1.5, 2.5) + rng.uniform(0, 0.05, (h, w))
    else:
        d = 2.0 + 0.3 * np.sin(xx / max(w, 1) * 6 * rng.uniform(.5, 1.5) + rng.uniform(0, 6)) \
            + 0.3 * np.cos(yy / max(h, 1) * 5 * rng.uniform(.5, 1.5) + rng.uniform(0, 6))
    d = np.clip(d, dmin * 0.5, None)
    if missing is None:
        missing = rng.choice(["none", "some", "block", "border", "most", "all", "negative", "nan", "tiny"], p=MISSING)
    if missing == "some":
        d[rng.random((h, w)) < 0.25] = 0
    elif missing == "block":
        a, b = rng.integers(0, h), rng.integers(0, w)
        d[a:a + max(1, h // 2), b:b + max(1, w // 2)] = 0
    elif missing == "border":
        d[0, :] = 0
        d[:, -1] = 0
    elif missing == "most":
        keep = rng.random((h, w)) < 0.1
        d[~keep] = 0
    elif missing == "all":
        d[:] = 0
    elif missing == "negative":
        d[rng.random((h, w)) < 0.2] = 0
        d[rng.random((h, w)) < 0.1] = -1.0
    elif missing == "nan":
        d[rng.random((h, w)) < 0.1] = 0
        d[rng.random((h, w)) < 0.15] = np.nan
    elif missing == "tiny":
        # measured, however close to the camera
        k = rng.random((h, w)) < 0.15
        d[k] = 10 ** rng.uniform(-4, -2, k.sum())
    return d


class Rgbd:
    """Raw numpy contents of an RGB-D batch (channels last), plus a builder."""

    def __init__(self, rgb, depth, K, poses, dtype=torch.float32):
        self.rgb, self.depth, self.K, self.poses, self.dtype = rgb, depth, K, poses, dtype

    @property
    def shape(self):
        return self.rgb.shape[:4]

    def tensors(self, channels_first=False, grad=False):
        rgb, d = self.rgb, self.depth[..., None]
        if channels_first:
            rgb = np.moveaxis(rgb, -1, 2)
            d = np.moveaxis(d, -1, 2)
        out = [T(rgb, self.dtype), T(d, self.dtype), T(self.K, self.dtype),
               None if self.poses is None else T(self.poses, self.dtype)]
        if grad:
            out = [None if o is None else o.requires_grad_() for o in out]
        return out

    def build(self, channels_first=False):
        from gradslam.structures.rgbdimages import RGBDImages
        r, d, k, p = self.tensors(channels_first)
        return RGBDImages(r, d, k, p, channels_first=channels_first)

    def sub(self, b=slice(None), s=slice(None)):
        b = slice(b, b + 1) if isinstance(b, (int, np.integer)) else b
        s = slice(s, s + 1) if isinstance(s, (int, np.integer)) else s
        return Rgbd(self.rgb[b, s], self.depth[b, s], self.K[b], None if self.poses is None else self.poses[b, s], self.dtype)


def count(rng, lo, hi, blo, bhi, p=.03):
    """lo..hi-1, now and then (p) blo..bhi-1"""
    return int(rng.integers(blo, bhi) if rng.random() < p else rng.integers(lo, hi))


def loguniform(rng, lo, hi):
    return int(np.exp(rng.uniform(np.log(lo), np.log(hi + 1))))


def rgbd(rng, B=None, L=None, h=None, w=None, poses=None, missing=None, kind=None, dtype=torch.float32,
         skew=None, max_angle=np.pi, max_t=1.0, dmin=0.6, dmax=4.0, big=0.0, wide=0.0):
    """big: how often one of the dimensions left open is far larger than usual (sizes are not supposed to matter);
    wide: how often cameras, distances, poses and colours are far from the usual ones"""
    if big and rng.random() < big:
        dim = str(rng.choice([k for k, v in (("B", B), ("L", L), ("h", h), ("w", w)) if v is None] or ["-"]))
        if h is None and w is None and rng.random() < .3:
            dim = "area"
        small = lambda v: v or int(rng.integers(1, 3))
        if dim == "B":
            B, L = int(rng.integers(6, 15)), small(L)
        elif dim == "L":
            B, L = small(B), int(rng.integers(6, 21))
        elif dim == "area":
            B, L, h, w = small(B), small(L), loguniform(rng, 20, 60), loguniform(rng, 20, 60)
        elif dim in "hw":
            n = loguniform(rng, 18, 130)
            B, L, h, w = small(B), small(L), h or (n if dim == "h" else int(rng.integers(2, 7))), w or (n if dim == "w" else int(rng.integers(2, 7)))
    B = B or int(rng.integers(1, 4))
    L = L or int(rng.integers(1, 4))
    h = h or int(rng.integers(2 if rng.random() < .95 else 1, 9))
    w = w or int(rng.integers(2 if rng.random() < .95 else 1, 9))
    rgb = rng.uniform(0, 1, (B, L, h, w, 3)) if rng.random() < 0.7 else rng.integers(0, 256, (B, L, h, w, 3)).astype(float)
    depth = np.stack([np.stack([depth_image(rng, h, w, missing, kind, dmin, dmax) for _ in range(L)]) for _ in range(B)])
    K = np.stack([intrinsics(rng, h, w, skew)[None] for _ in range(B)])
    if poses is None:
        poses = rng.random() < 0.8
    P = rigids(rng, (B, L), max_angle=max_angle, max_t=max_t) if poses else None
    if wide and rng.random() < wide:
        for b in range(B):
            unusual_camera(rng, K[b, 0], h, w)
        if rng.random() < .15:       # a wall straight ahead: one distance everywhere it was measured
            depth = np.where(depth > 0, rng.uniform(dmin, dmax), depth)
        if rng.random() < .6:
            depth = depth * 10 ** rng.uniform(-1.3, 3)
        if P is not None:
            P = unusual_poses(rng, P)
        if rng.random() < .3:
            rgb = rgb * rng.choice([-1.0, 40.0, 1e4]) if rng.random() < .7 else rgb - .5
    # representable in the working precision so that the oracle and the code see the same numbers
    c = lambda a: a if dtype == torch.float64 or a is None else a.astype(np.float32).astype(np.float64)
    return Rgbd(c(rgb), c(depth), c(K), c(P), dtype)


# ---------------------------------------------------------------- numpy oracle of the camera model
def vertex_oracle(depth, K):
    """depth (h,w), K (4,4) -> (h,w,3) local vertices, zero where depth is not positive."""
    h, w = depth.shape
    v, u = np.mgrid[0:h, 0:w].astype(float)
    fx, fy, cx, cy, s = K[0, 0], K[1, 1], K[0, 2], K[1, 2], K[0, 1]
    y = (v - cy) / fy
    x = (u - cx - s * y) / fx
    V = np.stack([x * depth, y * depth, depth], -1)
    V[~(depth > 0)] = 0      # missing: zero, negative or NaN
    return V


def normal_oracle(V, depth):
    """Unit cross products of forward differences; also returns the un-normalised length."""
    h, w, _ = V.shape
    dh = np.zeros_like(V)
    dv = np.zeros_like(V)
    dh[:, :-1] = V[:, 1:] - V[:, :-1]
    dv[:-1] = V[1:] - V[:-1]
    if w > 1:
        dh[:, -1] = dh[:, -2]
    if h > 1:
        dv[-1] = dv[-2]
    n = np.cross(dh, dv)
    ln = np.linalg.norm(n, axis=-1)
    out = n / np.where(ln == 0, 1, ln)[..., None]
    out[~(depth > 0)] = 0
    sc = np.linalg.norm(dh, axis=-1) * np.linalg.norm(dv, axis=-1)
    return out, ln, sc


def storage_ptrs(*tensors):
    s = set()
    for t in tensors:
        if t is None:
            continue
        if isinstance(t, (list, tuple)):
            s |= storage_ptrs(*t)
        elif torch.is_tensor(t) and t.numel() > 0:
            s.add(t.untyped_storage().data_ptr())
    return s


def same(a, b):
    """bitwise the same values (a NaN equals a NaN: the mark of missing depth)"""
    return a.shape == b.shape and a.dtype == b.dtype and (torch.equal(a, b) or a.dtype.is_floating_point and bool(((a == b) | a.isnan() & b.isnan()).all()))
