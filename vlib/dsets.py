"""Synthetic dataset folders (ICL, TUM, Scannet) and what a reader must deliver from them."""
import os
import shutil
import tempfile

import imageio
import numpy as np

from vlib import gen

ICL_K = np.array([[481.20, 0, 319.5, 0], [0, -480.0, 239.5, 0], [0, 0, 1, 0], [0, 0, 0, 1]])
TUM_K = np.array([[525.0, 0, 319.5, 0], [0, 525.0, 239.5, 0], [0, 0, 1, 0], [0, 0, 0, 1]])


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="gsv_ds_", dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Frame:
    """color uint8 (H,W,3), depth uint16 (H,W), pose (4,4) as stored in the text file, label uint8, name, stamps"""


def pose_text(M):
    return [["%.6f" % v for v in row] for row in M[:3]]


def frame(rng, k, t, h, w, textured, dh=None, dw=None):
    f = Frame()
    f.k, f.traj = k, t
    dh, dw = dh or h, dw or w
    if textured and not callable(textured):
        f.color = rng.integers(0, 256, (h, w, 3)).astype(np.uint8)
        f.depth = rng.integers(0, 65536, (dh, dw)).astype(np.uint16)
        f.label = rng.integers(0, 41, (dh, dw)).astype(np.uint8)
        if rng.random() < .3:               # pictures of a narrow range: near, far, flat, dark, bright, grey
            lo, hi = [(0, 1), (0, 2), (0, 256), (0, 300), (1, 5000), (40000, 65536), (65535, 65536), (777, 778)][int(rng.integers(0, 8))]
            f.depth = rng.integers(lo, hi, (dh, dw)).astype(np.uint16)
        if rng.random() < .3:
            lo, hi = [(0, 1), (0, 2), (0, 60), (60, 256), (120, 136), (200, 256), (255, 256)][int(rng.integers(0, 7))]
            f.color = rng.integers(lo, hi, (h, w, 3)).astype(np.uint8)
        if rng.random() < .1:
            f.color[:] = f.color[..., :1]
        if rng.random() < .1:
            lo = int(rng.integers(0, 41))
            f.label = np.full((dh, dw), lo, np.uint8)
    elif not callable(textured):        # constant pictures that identify trajectory and frame at any size
        f.color = np.empty((h, w, 3), np.uint8); f.color[:] = (k % 256, 10 + t, 200 - k % 100)
        f.depth = np.full((dh, dw), 1 + k + 500 * t, np.uint16)
        f.label = np.full((dh, dw), (k + 7 * t) % 41, np.uint8)
    f.quat = None
    if callable(textured):       # a rendered scene: picture, raw depth and true pose of frame k
        f.color, f.depth, pose = textured(k)
        f.label = np.zeros(f.depth.shape, np.uint8)
        f.pose = np.eye(4)
        f.pose[:3] = np.array(pose_text(pose), dtype=np.float64)
        return f
    M = gen.rigid(rng)
    M[:3, 3] = rng.normal(size=3) * 2
    f.pose = np.eye(4)
    f.pose[:3] = np.array(pose_text(M), dtype=np.float64)
    return f


def write_png(path, a):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    imageio.imwrite(path, a)


def icl(rng, base, number, n, h, w, textured=False, posesfile=True, t=0, tail=True):
    """one ICL trajectory; frames that the reader may use (trajectory 0 lacks its last pose)"""
    name = "living_room_traj%s_frei_png" % number
    d = os.path.join(base, name)
    fr = [frame(rng, k, t, h, w, textured) for k in range(n)]
    names = [str(k + 3) for k in range(n)] if rng.random() < .5 else [str(k) for k in range(n)]
    lines = []
    for f, nm in zip(fr, names):
        f.name = nm
        f.traj_name = name
        write_png(os.path.join(d, "rgb", nm + ".png"), f.color)
        write_png(os.path.join(d, "depth", nm + ".png"), f.depth)
        lines.append("%s depth/%s.png %s rgb/%s.png" % (nm, nm, nm, nm))
    with open(os.path.join(d, "associations.txt"), "w") as fh:
        fh.write("\n".join(lines) + ("\n" if rng.random() < .8 else ""))
    if posesfile:
        m = n - 1 if number == "0" else n
        with open(os.path.join(d, "livingRoom%sn.gt.sim" % number), "w") as fh:
            fh.write("\n\n".join("\n".join(" ".join(r) for r in pose_text(f.pose)) for f in fr[:m]) + ("\n\n" if tail else "\n"))
    return name, (fr[:-1] if number == "0" else fr)


def quat_of(rng):
    q = rng.normal(size=4)
    return q / np.linalg.norm(q)


def rot_to_quat(R):
    """(x, y, z, w) of a rotation: the eigenvector of the attitude matrix"""
    K = np.array([[R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0],
                  [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
                  [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], 0],
                  [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]]]) / 3
    w, v = np.linalg.eigh(K + np.tril(K, -1).T)
    return v[:, -1]


def quat_to_rot(q):
    x, y, z, w = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def tum(rng, base, suffix, n, h, w, textured=False, posesfile=True, t=0, drop=0.0, t0=None, noise=True):
    """one TUM sequence.  Readings of one frame lie within 8 ms, different frames 50 ms apart, so
    the association is unambiguous.  `drop`: chance that a frame lacks its depth or pose."""
    name = "rgbd_dataset_freiburg" + suffix
    d = os.path.join(base, name)
    fr = [frame(rng, k, t, h, w, textured) for k in range(n)]
    t0 = float(rng.choice([1305031102.1, 0.2, 8.9, 98.7, 1e6])) if t0 is None else t0
    R, D, P = [], [], []
    for k, f in enumerate(fr):
        c = t0 + k * .06
        f.traj_name = name
        f.s_rgb = "%.6f" % c
        f.s_depth = "%.6f" % (c + (rng.uniform(-.008, .008) if rng.random() < .9 else 0))
        f.s_pose = "%.4f" % (float(f.s_depth) + rng.uniform(-.008, .008))
        f.name = f.s_rgb
        q = rot_to_quat(f.pose[:3, :3]) if callable(textured) else quat_of(rng)
        tr = f.pose[:3, 3] if callable(textured) else rng.normal(size=3) * 2
        f.text = ["%.5f" % v for v in np.concatenate([tr, q])]
        v = np.array([float(x) for x in f.text])
        f.pose = np.eye(4)
        f.pose[:3, :3] = quat_to_rot(v[3:]); f.pose[:3, 3] = v[:3]
        f.has_depth, f.has_pose = rng.random() >= drop, rng.random() >= drop
        write_png(os.path.join(d, "rgb", f.s_rgb + ".png"), f.color)
        R.append("%s rgb/%s.png" % (f.s_rgb, f.s_rgb))
        if f.has_depth:
            write_png(os.path.join(d, "depth", f.s_depth + ".png"), f.depth)
            D.append("%s depth/%s.png" % (f.s_depth, f.s_depth))
        if f.has_pose:
            P.append(f.s_pose + " " + " ".join(f.text))
    head = "# %s\n# file: 'x.bag'\n# timestamp filename\n"

    def put(fn, lines):
        out = head % fn if rng.random() < .8 else ""
        for l in lines:
            if noise and rng.random() < .08:
                out += "\n"
            if noise and rng.random() < .08:
                out += "# a comment line 1 2 3\n"
            if noise and rng.random() < .05:
                out += "   \n"
            if noise and rng.random() < .15:
                l = l.replace(" ", "\t" if rng.random() < .5 else ("  " if rng.random() < .5 else " , "))
            if noise and rng.random() < .1:
                l = l + "  "
            out += l + "\n"
        with open(os.path.join(d, fn), "w") as fh:
            fh.write(out if rng.random() < .8 else out.rstrip("\n"))
    put("rgb.txt", R)
    put("depth.txt", D)
    if posesfile:
        put("groundtruth.txt", P)
    return name, fr


def scannet(rng, base, meta, scene, seq, n, h, w, textured=False, t=0, K=None, shared=True):
    """one Scannet sequence (its files live under a scene folder shared by the scene's sequences)"""
    sd = os.path.join(base, scene)
    dh, dw = (h, w) if shared else (int(rng.integers(2, 9)), int(rng.integers(2, 9)))
    fr = [frame(rng, k, t, h, w, textured, dh, dw) for k in range(n)]
    K = np.eye(4) if K is None else K
    os.makedirs(os.path.join(sd, "intrinsic"), exist_ok=True)
    for nm, m in (("intrinsic_color", np.diag([9.0, 9, 1, 1])), ("extrinsic_color", np.eye(4)), ("intrinsic_depth", K), ("extrinsic_depth", np.eye(4))):
        np.savetxt(os.path.join(sd, "intrinsic", nm + "%d.txt" % seq), m, fmt="%.6f")
    lines = []
    off = 1000 * seq
    for f in fr:
        i = off + f.k
        f.name = "%s-seq_%d" % (scene, seq)
        write_png(os.path.join(sd, "color", "%d.png" % i), f.color)
        write_png(os.path.join(sd, "depth", "%d.png" % i), f.depth)
        write_png(os.path.join(sd, "label-filt", "%d.png" % i), f.label)
        os.makedirs(os.path.join(sd, "pose"), exist_ok=True)
        np.savetxt(os.path.join(sd, "pose", "%d.txt" % i), f.pose, fmt="%.6f")
        p = lambda k, e: "%s %s/%s/%d.%s" % (k, scene, k, i, e)
        q = lambda k: "%s %s/intrinsic/%s%d.txt" % (k, scene, k, seq)
        lines.append(" ".join([p("color", "png"), p("depth", "png"), p("pose", "txt"), p("label-filt", "png"),
                               q("intrinsic_color"), q("extrinsic_color"), "x y", q("intrinsic_depth"), q("extrinsic_depth")]))
    os.makedirs(meta, exist_ok=True)
    with open(os.path.join(meta, "%s-seq_%d.txt" % (scene, seq)), "w") as fh:
        fh.write("\n".join(lines) + ("\n" if rng.random() < .7 else ""))
    return "%s-seq_%d" % (scene, seq), fr


# ------------------------------------------------------------------------- expectations
def windows(frames, seqlen, dilation, stride, start=0, end=None):
    fr = frames[start:end]
    d = 0 if dilation is None else dilation
    s = seqlen * (d + 1) if stride is None else stride
    out, i = [], 0
    while i + (seqlen - 1) * (d + 1) < len(fr):
        out.append([fr[i + j * (d + 1)] for j in range(seqlen)])
        i += s
    return out


def resize_linear(a, H, W):
    """bilinear with pixel centres at half integers, edges clamped (float64)"""
    a = a.astype(np.float64)
    h, w = a.shape[:2]
    y = np.clip((np.arange(H) + .5) * h / H - .5, 0, h - 1)
    x = np.clip((np.arange(W) + .5) * w / W - .5, 0, w - 1)
    y0, x0 = np.floor(y).astype(int), np.floor(x).astype(int)
    y1, x1 = np.minimum(y0 + 1, h - 1), np.minimum(x0 + 1, w - 1)
    fy, fx = (y - y0)[:, None, None], (x - x0)[None, :, None]
    if a.ndim == 2:
        fy, fx = fy[..., 0], fx[..., 0]
    top = a[y0][:, x0] * (1 - fx) + a[y0][:, x1] * fx
    bot = a[y1][:, x0] * (1 - fx) + a[y1][:, x1] * fx
    return top * (1 - fy) + bot * fy


def admissible(n, N):
    """source indices nearest-neighbour resizing may take for each of N outputs: floor(i n / N); where
    i n / N is an integer the library's floating-point ratio may fall just below it"""
    return [((i * n) // N, (i * n) // N - ((i * n) % N == 0 and i > 0)) for i in range(N)]


def nearest_ok(got, a):
    """every pixel of got is an admissible nearest source pixel of a"""
    H, W = got.shape
    ok = np.zeros((H, W), bool)
    R, C = np.array(admissible(a.shape[0], H)), np.array(admissible(a.shape[1], W))
    for i in range(2):
        for j in range(2):
            ok |= np.isclose(got, a[R[:, i]][:, C[:, j]], rtol=1e-6, atol=1e-9)
    return ok.all()


def scaled_K(K, H, W):
    K = K.copy()
    K[0] *= W / 640.0
    K[1] *= H / 480.0
    return K
