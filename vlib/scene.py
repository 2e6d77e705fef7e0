"""Analytic scenes rendered by ray casting (numpy), for SLAM and dataset workloads."""
import numpy as np

from vlib import gen


class Surface:
    """z = g(x, y): a bumpy wall in front of the camera that constrains all six degrees of freedom"""

    def __init__(self, rng, amp=(.15, .3)):
        self.z0 = rng.uniform(2.0, 2.6)
        self.a = rng.uniform(*amp, 4) * rng.choice([-1, 1], 4)
        self.f = rng.uniform(1.5, 3.0, (4, 2)) * rng.choice([-1, 1], (4, 2))
        self.p = rng.uniform(0, 6.3, 4)

    def g(self, x, y):
        z = self.z0 + 0 * x
        for a, f, p in zip(self.a, self.f, self.p):
            z = z + .5 * a * np.sin(f[0] * x + f[1] * y + p)
        return z

    def color(self, x, y, z):
        return np.stack([.5 + .5 * np.sin(3 * x), .5 + .5 * np.cos(2 * y), .5 + .5 * np.sin(2 * x + 3 * y)], -1)

    def render(self, K, pose, h, w):
        """(rgb, depth) seen from camera-to-world pose"""
        v, u = np.mgrid[0:h, 0:w].astype(float)
        fx, fy, cx, cy, s = K[0, 0], K[1, 1], K[0, 2], K[1, 2], K[0, 1]
        y = (v - cy) / fy
        x = (u - cx - s * y) / fx
        d = np.stack([x, y, np.ones_like(x)], -1) @ pose[:3, :3].T
        o = pose[:3, 3]
        t = np.full((h, w), self.z0 - o[2])
        for _ in range(60):
            f = o[2] + t * d[..., 2] - self.g(o[0] + t * d[..., 0], o[1] + t * d[..., 1])
            e = 1e-6
            f2 = o[2] + (t + e) * d[..., 2] - self.g(o[0] + (t + e) * d[..., 0], o[1] + (t + e) * d[..., 1])
            df = (f2 - f) / e
            t = t - np.clip(f / np.where(np.abs(df) < .2, .2, df), -.3, .3)
        P = o + t[..., None] * d
        return self.color(P[..., 0], P[..., 1], P[..., 2]), t


def sequence(rng, B, L, h, w, dtype, step_t=.01, step_r=.01, first=None, skew=False, surf=None, missing=0.0):
    """gen.Rgbd of B rendered sequences along smooth random trajectories; .poses are the true poses"""
    rgb = np.zeros((B, L, h, w, 3)); dep = np.zeros((B, L, h, w)); K = np.zeros((B, 1, 4, 4)); P = np.zeros((B, L, 4, 4))
    for b in range(B):
        k = np.eye(4)
        f = 1.1 * max(h, w)
        k[0, 0], k[1, 1], k[0, 2], k[1, 2] = f, f * rng.uniform(.95, 1.05), (w - 1) / 2 + rng.uniform(-1, 1), (h - 1) / 2 + rng.uniform(-1, 1)
        K[b, 0] = k
        S = surf or Surface(rng)
        base = np.eye(4) if first is None else first
        cam = np.eye(4)
        for s in range(L):
            if s:
                cam = cam @ gen.rigid(rng, step_r, step_t)
            rgb[b, s], dep[b, s] = S.render(k, cam, h, w)
            P[b, s] = base @ cam
    if missing:
        dep[rng.random(dep.shape) < missing] = 0
    c = lambda a: np.array(a, dtype=np.float32).astype(float) if str(dtype) == "torch.float32" else a
    return gen.Rgbd(c(rgb), c(dep), c(K), c(P), dtype)
