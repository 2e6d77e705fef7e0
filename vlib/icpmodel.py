"""Independent float64 model of point-to-plane alignment, and scenes for it."""
import numpy as np

from vlib import gen


def expm(xi):
    v, w = xi[:3], xi[3:]
    th = np.linalg.norm(w)
    K = gen.hat(w)
    if th < 1e-4:
        V = np.eye(3) + K / 2 + K @ K / 6
        R = np.eye(3) + K + K @ K / 2 + K @ K @ K / 6
    else:
        R = np.eye(3) + np.sin(th) / th * K + (1 - np.cos(th)) / th ** 2 * K @ K
        V = np.eye(3) + (1 - np.cos(th)) / th ** 2 * K + (th - np.sin(th)) / th ** 3 * K @ K
    M = np.eye(4)
    M[:3, :3] = R
    M[:3, 3] = V @ v
    return M


def logm(M, w=None):
    """a logarithm of a rigid motion: the one with rotation vector w (default: the shortest)"""
    R, t = M[:3, :3], M[:3, 3]
    c = np.clip((np.trace(R) - 1) / 2, -1, 1)
    th = np.arccos(c)
    a = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    s = np.linalg.norm(a)
    th = np.arctan2(s, c)
    if w is None:
        w = a if s < 1e-9 else a / s * th
    K = gen.hat(w)
    th = np.linalg.norm(w)
    if th < 1e-4:
        V = np.eye(3) + K / 2 + K @ K / 6
    else:
        V = np.eye(3) + (1 - np.cos(th)) / th ** 2 * K + (th - np.sin(th)) / th ** 3 * K @ K
    return np.concatenate([np.linalg.solve(V, t), w])


def apply(T, p):
    return p @ T[:3, :3].T + T[:3, 3]


def nearest(src, tgt):
    """(index, distance, gap to the runner-up) of the nearest target per source point"""
    if len(tgt) == 0:
        z = np.zeros(len(src))
        return np.zeros(len(src), int), z + np.inf, z + np.inf
    d = np.linalg.norm(src[:, None] - tgt[None], axis=-1)
    i = d.argmin(1)
    d1 = d[np.arange(len(src)), i]
    e = d.copy()
    e[np.arange(len(src)), i] = np.inf
    d2 = e.min(1) if len(tgt) > 1 else np.full(len(src), np.inf)
    return i, d1, d2 - d1


class Lin:
    """linearisation at a cloud; .ambiguous when rounding could change a discrete choice"""

    def __init__(self, src, tgt, nrm, thr, slack=2e-6):
        scale = max(1.0, np.abs(src).max() if len(src) else 1, np.abs(tgt).max() if len(tgt) else 1)
        i, d, gap = nearest(src, tgt)
        self.dist = d
        keep = np.ones(len(src), bool) if thr is None else d < thr
        if len(tgt) == 0:
            keep[:] = False
        self.ambiguous = bool(len(src) and (gap < slack * scale).any())
        if thr is not None and len(src):
            self.ambiguous |= bool((np.abs(d - thr) < slack * scale).any())
        self.idx, self.keep = i[keep], keep
        s, p, n = src[keep], tgt[self.idx] if len(tgt) else np.zeros((0, 3)), nrm[self.idx] if len(tgt) else np.zeros((0, 3))
        self.A = np.concatenate([n, np.cross(s, n)], 1)
        self.b = (n * (p - s)).sum(1)
        self.err = float((self.b ** 2).sum())

    def step(self, damp):
        H = self.A.T @ self.A + damp * np.eye(6)
        self.cond = np.linalg.cond(H)
        if not self.cond < 1e15:
            return np.linalg.lstsq(H, self.A.T @ self.b, rcond=None)[0]
        return np.linalg.solve(H, self.A.T @ self.b)


def lm_step(src, tgt, nrm, T, damp, thr):
    """one damped step from T: (T_new_candidate, err_before, err_after, ambiguous, cond)"""
    a = Lin(apply(T, src), tgt, nrm, thr)
    xi = a.step(damp)
    D = expm(xi)
    c = Lin(apply(D, apply(T, src)), tgt, nrm, thr)
    # a step of several turns amplifies rounding: treated like a bad condition number
    return D @ T, a.err, c.err, a.ambiguous or c.ambiguous, a.cond * max(1.0, np.linalg.norm(xi) ** 2)


def grad_lm(src, tgt, nrm, T, iters, damp, thr, lmax, B, B2, nu):
    """the documented smooth law; returns T, ambiguous, worst condition number, trace"""
    lmin = 1.0 / lmax
    amb, cond, tr = False, 1.0, []
    for _ in range(iters):
        cur = apply(T, src)
        a = Lin(cur, tgt, nrm, thr)
        xi = a.step(damp)
        c = Lin(apply(expm(xi), cur), tgt, nrm, thr)
        amb |= a.ambiguous or c.ambiguous
        cond = max(cond, a.cond)
        e = np.clip(c.err - a.err, -70, 70)
        q = lmin + (lmax - lmin) * np.exp(-np.logaddexp(0, -B * e))
        s = np.exp(-np.logaddexp(0, -B2 * e) / nu)
        tr.append((float(a.err), float(e), float(q), float(s), float(damp)))
        damp = damp * q
        T = expm(s * xi) @ T
    return T, amb, cond, tr


# ---------------------------------------------------------------- scenes
def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def spaced_cloud(rng, n=(3, 3, 3), spacing=0.5, jitter=0.15):
    g = np.stack(np.meshgrid(*[np.arange(k) for k in n], indexing="ij"), -1).reshape(-1, 3) * spacing
    p = g + rng.uniform(-jitter, jitter, g.shape) * spacing
    p -= p.mean(0)
    return p[rng.permutation(len(p))]


def surface_cloud(rng, n=10, spacing=0.2):
    """bumpy height field with its analytic normals"""
    x, y = np.meshgrid(np.arange(n) * spacing, np.arange(n) * spacing, indexing="ij")
    x = x - x.mean(); y = y - y.mean()
    a, b = rng.uniform(.25, .5, 2); f, g = rng.uniform(1.5, 2.8, 2); ph = rng.uniform(0, 6, 2)
    z = a * np.sin(f * x + ph[0]) + b * np.cos(g * y + ph[1]) + 0.15 * x * y
    zx = a * f * np.cos(f * x + ph[0]) + 0.15 * y
    zy = -b * g * np.sin(g * y + ph[1]) + 0.15 * x
    p = np.stack([x, y, z], -1).reshape(-1, 3)
    nrm = unit(np.stack([-zx, -zy, np.ones_like(zx)], -1).reshape(-1, 3))
    return p, nrm


def random_cloud(rng, n, scale=1.0):
    return rng.uniform(-scale, scale, (n, 3)), unit(rng.normal(size=(n, 3)))


def small_motion(rng, ang=0.05, t=0.05):
    return gen.rigid(rng, max_angle=ang, max_t=t)


def overlapping_pair(rng, kind=None, partial=None):
    """(src, tgt, normals, M): the true motion M maps src onto (part of) tgt; pairs start out correct"""
    kind = kind or rng.choice(["spaced", "surface"])
    if kind == "spaced":
        n = [(3, 3, 3), (4, 3, 3), (5, 4, 2), (4, 4, 4)][int(rng.integers(0, 4))]
        p = spaced_cloud(rng, n)
        nrm = unit(rng.normal(size=p.shape))
        # displacement well below half the smallest spacing (0.35): every initial pair is the right one
        M = small_motion(rng, ang=0.04, t=0.03)
    else:
        p, nrm = surface_cloud(rng, int(rng.integers(9, 14)))
        M = small_motion(rng, ang=0.02, t=0.02)
    q = p
    if partial is None:
        partial = rng.random() < .4
    if partial:
        k = rng.random(len(p)) < .7
        if k.sum() >= 12:
            q = p[k]
    src = apply(np.linalg.inv(M), q)
    return src[rng.permutation(len(src))], p, nrm, M, kind
