"""Reference model of frames, maps, association and fusion (float64, no padding, per pixel)."""
import numpy as np
import torch

from vlib import gen
from vlib.icpmodel import unit


class Frame:
    """one RGB-D frame: everything the mapping code derives from it"""

    def __init__(self, rgb, depth, K, pose):
        self.rgb, self.depth, self.K = rgb, depth, K
        self.pose = np.eye(4) if pose is None else pose
        self.h, self.w = depth.shape
        self.valid = depth > 0
        self.V = gen.vertex_oracle(depth, K)
        self.N, ln, sc = gen.normal_oracle(self.V, depth)
        # direction of the cross product is ill-conditioned where the two differences are nearly parallel
        with np.errstate(invalid="ignore", divide="ignore"):
            self.normal_ok = (ln == 0) & (sc == 0) | (self.h == 1 or self.w == 1) | (ln > 1e-3 * np.maximum(sc, 1e-12))
        R, t = self.pose[:3, :3], self.pose[:3, 3]
        self.GV = self.V @ R.T + t
        self.GV[~self.valid] = 0
        self.GN = self.N @ R.T


def frames_of(r, s=0):
    """list of Frame (one per batch element) of time step s of a gen.Rgbd"""
    return [Frame(r.rgb[b, s], r.depth[b, s], r.K[b, 0], None if r.poses is None else r.poses[b, s]) for b in range(r.rgb.shape[0])]


class MapEl:
    def __init__(self, P, N, C, c):
        self.P, self.N, self.C, self.c = P, N, C, c

    def __len__(self):
        return len(self.P)

    def copy(self):
        return MapEl(self.P.copy(), self.N.copy(), self.C.copy(), self.c.copy())


def build_map(els, dtype, padded=False, features=True):
    """real Pointclouds of the map elements (values rounded to dtype are written back to the model)"""
    from gradslam.structures.pointclouds import Pointclouds
    lst = {}
    for k in ("P", "N", "C", "c"):
        ts = [torch.tensor(getattr(e, k), dtype=dtype) for e in els]
        for e, t in zip(els, ts):
            setattr(e, k, t.double().numpy())
        lst[k] = ts
    if padded and len({len(e) for e in els}) == 1:
        lst = {k: torch.stack(v) for k, v in lst.items()}
    return Pointclouds(lst["P"], lst["N"], lst["C"], lst["c"] if features else None)


def read_map(pc):
    out = []
    for b in range(len(pc)):
        g = lambda l: l[b].detach().double().numpy() if l is not None else None
        out.append(MapEl(g(pc.points_list), g(pc.normals_list), g(pc.colors_list), g(pc.features_list)))
    return out


def project(fr, P):
    """camera-frame z, pixel coordinates u, v of global points"""
    Ti = np.linalg.inv(fr.pose)
    X = P @ Ti[:3, :3].T + Ti[:3, 3]
    z = X[:, 2]
    with np.errstate(all="ignore"):
        q = X @ fr.K[:3, :3].T
        u, v = q[:, 0] / z, q[:, 1] / z
    return z, u, v


def visible(fr, P, slack):
    """(yes, unsure, row, col): definitely visible points, undecidable ones, their pixel"""
    if len(P) == 0:
        e = np.zeros(0, bool)
        return e, e, np.zeros(0, int), np.zeros(0, int)
    z, u, v = project(fr, P)
    zs = slack * max(1.0, np.abs(P).max())
    with np.errstate(all="ignore"):
        uv_slack = slack * max(1.0, np.abs(P).max(), np.abs(fr.pose).max()) * np.maximum(1.0, (np.abs(u) + np.abs(v) + np.abs(fr.K[0, 0]) + np.abs(fr.K[1, 1]) + np.abs(fr.K[0, 2]) + np.abs(fr.K[1, 2])) * np.maximum(1.0, 1.0 / np.maximum(np.abs(z), 1e-9))) * 10
        # the code's own margin is 1e-3 of a pixel around the image
        inside = (z > zs) & (u > -1e-4) & (u < fr.w - 1 + 1e-4) & (v > -1e-4) & (v < fr.h - 1 + 1e-4)
        outside = (z < -zs) | (u < -2e-3 - uv_slack) | (u > fr.w - 1 + 2e-3 + uv_slack) | (v < -2e-3 - uv_slack) | (v > fr.h - 1 + 2e-3 + uv_slack)
        outside |= ~np.isfinite(u) | ~np.isfinite(v) | (z == 0)
        half = (np.abs(u - np.floor(u) - .5) < uv_slack + 1e-9) | (np.abs(v - np.floor(v) - .5) < uv_slack + 1e-9)
        edge = inside & ((u < uv_slack) & (u < -5e-4) | False)
        unsure = ~outside & (~inside | half | edge | (uv_slack > .3))
        unsure |= (np.abs(z) <= zs) & (z != 0)
        row = np.where(inside, np.rint(np.where(np.isfinite(v), v, 0)), 0).astype(int).clip(0, fr.h - 1)
        col = np.where(inside, np.rint(np.where(np.isfinite(u), u, 0)), 0).astype(int).clip(0, fr.w - 1)
    return inside & ~unsure, unsure, row, col


def similar(fr, P, N, row, col, dist_th, dot_th, slack):
    """(yes, unsure) of the similarity of each map point to the frame point of its pixel"""
    d = np.linalg.norm(P - fr.GV[row, col], axis=1) if len(P) else np.zeros(0)
    n = (N * fr.GN[row, col]).sum(1) if len(P) else np.zeros(0)
    valid = fr.valid[row, col]
    sc = max(1.0, np.abs(P).max() if len(P) else 1, np.abs(fr.GV).max())
    yes = valid & (d < dist_th) & (n > dot_th)
    ns = 2e3 * slack          # normals are conditioned by neighbouring differences
    unsure = valid & ((np.abs(d - dist_th) < slack * sc * 20) | (np.abs(n - dot_th) < ns) | ~fr.normal_ok[row, col])
    # a definite no on one criterion decides
    no = ~valid | (d > dist_th + slack * sc * 20) | ((n < dot_th - ns) & fr.normal_ok[row, col])
    return yes & ~unsure, unsure & ~no, d


def alpha(V, sigma):
    a = np.exp(-(V ** 2).sum(-1) / (2 * float(sigma) ** 2))
    return np.clip(a, 1e-7, 1.01)


def fuse(el, fr, table, sigma):
    """model of fusing one frame: table rows are (n, row, col); returns the new MapEl"""
    A = alpha(fr.V, sigma)
    e = el.copy()
    hit = np.zeros((fr.h, fr.w), bool)
    for n, r, c in table:
        a, cc = A[r, c], el.c[n, 0]
        s = cc + a
        e.P[n] = (cc * el.P[n] + a * fr.GV[r, c]) / s
        e.N[n] = (cc * el.N[n] + a * fr.GN[r, c]) / s
        e.C[n] = (cc * el.C[n] + a * fr.rgb[r, c]) / s
        e.c[n] = s
        hit[r, c] = True
    new = fr.valid & ~hit
    return MapEl(np.concatenate([e.P, fr.GV[new]]), np.concatenate([e.N, fr.GN[new]]),
                 np.concatenate([e.C, fr.rgb[new]]), np.concatenate([e.c, A[new][:, None]])), new


def aggregate(el, fr):
    return MapEl(np.concatenate([el.P, fr.GV[fr.valid]]), np.concatenate([el.N, fr.GN[fr.valid]]),
                 np.concatenate([el.C, fr.rgb[fr.valid]]), el.c)


# ---------------------------------------------------------------- generated maps
def map_for_frame(rng, fr, n=None, kind=None, big=0.0):
    """points of all kinds relative to a frame: near its surface, off it, behind, outside, on repeated pixels"""
    if n is None and big and rng.random() < big:
        n = gen.loguniform(rng, 100, 3000)
    if n is None:
        n = int(rng.choice([0, 1, 5, 25, 60])) if rng.random() < .7 else int(rng.integers(0, 20))
    if n == 0:
        z = np.zeros((0, 3))
        return MapEl(z, z.copy(), z.copy(), np.zeros((0, 1)))
    P, N = np.zeros((n, 3)), np.zeros((n, 3))
    R, t = fr.pose[:3, :3], fr.pose[:3, 3]
    Kinv = np.linalg.inv(fr.K[:3, :3])
    hot = [(int(rng.integers(0, fr.h)), int(rng.integers(0, fr.w))) for _ in range(int(rng.integers(1, 4)))]
    for i in range(n):
        k = rng.random()
        if k < .65:
            r, c = hot[int(rng.integers(0, len(hot)))] if rng.random() < .5 else (int(rng.integers(0, fr.h)), int(rng.integers(0, fr.w)))
            z = fr.depth[r, c] if fr.depth[r, c] > 0 else rng.uniform(.5, 3)
            z = z * (1 + rng.choice([0, 0, .01, -.01, .04, .3]) * rng.random())
            o = .45 if fr.h > 1 < fr.w and rng.random() < .9 else 1e-6      # a single row or column is only hit in its middle
            X = Kinv @ np.array([c + rng.uniform(-o, o), r + rng.uniform(-o, o), 1.0]) * z
            P[i] = R @ X + t
            N[i] = fr.GN[r, c] if rng.random() < .7 and np.abs(fr.GN[r, c]).sum() else rng.normal(size=3)
            if rng.random() < .4:
                N[i] = N[i] + rng.normal(size=3) * .2
            if rng.random() < .07:
                N[i] = -N[i]
        elif k < .8:      # behind the camera, projecting inside
            X = Kinv @ np.array([rng.uniform(0, fr.w - 1), rng.uniform(0, fr.h - 1), 1.0]) * -rng.uniform(.2, 3)
            P[i] = R @ X + t
            N[i] = rng.normal(size=3)
        elif k < .97:      # outside the image: beyond each border and corner
            u = rng.choice([-.6, -3.0, fr.w - .4, fr.w + 3.0, fr.w / 2]) + rng.uniform(-.1, .1)
            v = rng.choice([-.6, -3.0, fr.h - .4, fr.h + 3.0, fr.h / 2]) + rng.uniform(-.1, .1)
            P[i] = R @ (Kinv @ np.array([u, v, 1.0]) * rng.uniform(.5, 3)) + t
            N[i] = rng.normal(size=3)
        else:
            P[i], N[i] = 0, rng.normal(size=3)
    if n > 3 and rng.random() < .3:      # exact duplicates
        P[1], N[1] = P[0], N[0]
    N = N / np.maximum(np.linalg.norm(N, axis=1, keepdims=True), 1e-9)
    cs = [rng.choice([1.0, 1.0, 2.0, .5, 7.25, 1e-3], (n, 1)), rng.uniform(.01, 5, (n, 1)), 10 ** rng.uniform(-6, 4, (n, 1))][int(rng.choice(3, p=[.5, .3, .2]))]
    C = rng.uniform(0, 1, (n, 3)) if rng.random() < .7 else rng.uniform(-1, 1, (n, 3)) * rng.choice([1.0, 300.0, 5000.0])
    return MapEl(P, N, C, cs.astype(float))


def surface_rgbd(rng, B=None, L=1, dtype=torch.float32, h=None, w=None, missing=None, **kw):
    """smooth scenes (well conditioned normals), noise scenes now and then"""
    kind = rng.choice(["plane", "bumps", "bumps", "steps", "noise"])
    return gen.rgbd(rng, B=B, L=L, h=h, w=w, poses=True, missing=missing, kind=str(kind), dtype=dtype, **kw)
