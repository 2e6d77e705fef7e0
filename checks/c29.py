"""C29: files on disk to map: reader, loader, frames and SLAM agree on one geometry."""
import copy
import pickle
import warnings

import numpy as np
import torch

from vlib import dsets as DS, gen, scene
from vlib.core import Check, Family, Skip

SCALE = {"ICL": 5000.0, "TUM": 5000.0, "Scannet": 1000.0}


def trajectory(rng, n, step):
    """smooth camera path starting anywhere"""
    base = gen.rigid(rng)
    base[:3, 3] = rng.normal(size=3) * 2
    cam, out = np.eye(4), []
    for _ in range(n):
        out.append(cam)
        cam = cam @ gen.rigid(rng, step, step)
    return base, out


class World:
    """one recorded sequence of a bumpy wall: base maps scene coordinates to the file's world"""

    def __init__(self, rng, kind, n, h, w, step, amp):
        self.S = scene.Surface(rng, amp=amp)
        self.base, self.cams = trajectory(rng, n, step)
        K = {"ICL": DS.ICL_K, "TUM": DS.TUM_K}.get(kind)
        if K is None:
            K = np.eye(4)
            K[0, 0], K[1, 1], K[0, 2], K[1, 2] = rng.uniform(450, 700), rng.uniform(450, 700), rng.uniform(300, 340), rng.uniform(220, 260)
            K = np.round(K, 6)
        self.Kfull = K
        K = DS.scaled_K(K, h, w)
        self.K, self.scale, self.h, self.w = K, SCALE[kind], h, w

    def frame(self, k):
        rgb, d = self.S.render(self.K, self.cams[k], self.h, self.w)
        return np.round(np.clip(rgb, 0, 1) * 255).astype(np.uint8), np.round(d * self.scale).astype(np.uint16), self.base @ self.cams[k]

    def distance(self, p, k):
        """how far points given in the coordinates of frame k lie off the surface, and the colour there"""
        q = p @ self.cams[k][:3, :3].T + self.cams[k][:3, 3]
        z = self.S.g(q[:, 0], q[:, 1])
        e = 1e-5
        gx = (self.S.g(q[:, 0] + e, q[:, 1]) - z) / e
        gy = (self.S.g(q[:, 0], q[:, 1] + e) - z) / e
        nrm = np.sqrt(1 + gx ** 2 + gy ** 2)
        n = np.stack([gx, gy, -np.ones_like(gx)], -1) / nrm[:, None]
        return np.abs(q[:, 2] - z) / nrm, self.S.color(q[:, 0], q[:, 1], q[:, 2]), n @ self.cams[k][:3, :3]


def record(rng, root, kind, n, h, w, step=.03, amp=(.08, .2), many=None):
    """a folder with one to three recorded sequences and its reader"""
    worlds, many = {}, many or int(rng.integers(1, 4))
    if kind == "ICL":
        from gradslam.datasets.icl import ICL as cls
        for t, num in enumerate(rng.permutation(np.arange(1, 7))[:many]):
            W = World(rng, kind, n, h, w, step, amp)
            name, fr = DS.icl(rng, root, str(num), n, h, w, textured=W.frame, t=t)
            worlds[name] = W
        return cls, [root], worlds
    if kind == "TUM":
        from gradslam.datasets.tum import TUM as cls
        for t in range(many):
            W = World(rng, kind, n, h, w, step, amp)
            name, fr = DS.tum(rng, root, "%d_s%d" % (rng.integers(1, 4), t), n, h, w, textured=W.frame, t=t)
            worlds[name] = W
        return cls, [root], worlds
    from gradslam.datasets.scannet import Scannet as cls
    for t in range(many):
        W = World(rng, kind, n, h, w, step, amp)
        name, fr = DS.scannet(rng, root + "/scans", root + "/meta", "scene%04d_00" % (t + 3), 0, n, h, w, textured=W.frame, t=t, K=W.Kfull)
        worlds[name] = W
    return cls, [root + "/scans", root + "/meta"], worlds


def which(worlds, kind, text):
    """sequence and frame numbers an item's name string stands for"""
    hits = [n for n in worlds if n in text] or ([n for n in worlds if n.replace("_png", "") in text or n.replace("rgbd_dataset_", "") in text])
    return hits


def pipeline(ctx):
    from torch.utils.data import DataLoader
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    from gradslam.structures.rgbdimages import RGBDImages
    rng = ctx.rng
    kind = ["ICL", "TUM", "Scannet"][ctx.index % 3]
    f = int(rng.integers(1, 3))                    # stored pictures f times the delivered size
    H, W = int(rng.integers(16, 28)), int(rng.integers(20, 32))
    n = int(rng.integers(3, 6))
    with DS.Scratch() as root:
        cls, pos, worlds = record(rng, root, kind, n, H * f, W * f)
        norm, cf = bool(rng.random() < .5), bool(rng.random() < .5)
        kw = dict(height=H, width=W, normalize_color=norm, channels_first=cf)
        if kind == "Scannet":
            kw.update(scenes=None, return_labels=False, start=0, end=-1)
            L, dil, stride = n, 0, n
        else:
            L, dil = [(2, 0), (3, 0), (2, 1)][int(rng.integers(0, 3))]
            stride = int(rng.integers(1, 3))
            kw.update(seqlen=L, dilation=dil, stride=stride)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = cls(*pos, **kw)
            bs = int(rng.integers(1, 4))
            order = [int(i) for i in rng.permutation(len(ds))]
            batches = list(DataLoader(ds, batch_size=bs, sampler=order))
        where = [(name, k) for name in worlds for k in range(0, n - (L - 1) * (dil + 1), stride)]
        ctx.eq("windows", len(ds), len(where), "%s: windows of %d frames" % (kind, n))
        ctx.set(kind=kind, size=(H, W), factor=f, L=L, dilation=dil, stride=stride, batch=bs, channels_first=cf, normalize=norm, n=n)
        seen = 0
        for batch in batches[:2]:
            color, depth, K, pose = batch[:4]
            names = [x for x in batch if isinstance(x, (list, tuple)) and x and isinstance(x[0], str)]
            b = color.shape[0]
            frames = RGBDImages(color, depth, K, pose, channels_first=cf)
            agg = bool(rng.random() < .6)
            slam = (ICPSLAM if agg else PointFusion)(odom="gt", dsratio=1)
            pc, rec = slam(frames)
            ctx.ok("poses-recovered", float((rec - pose).abs().max()) < 1e-4, "%s: ground-truth trajectory %.3g off the file's" % (kind, float((rec - pose).abs().max())))
            for e in range(b):
                # which recorded window is this?  judged by the reader's own name of it
                i = order[seen]
                seen += 1
                cand = [(nm, k) for nm, k in where if nm in names[0][e]] if names else where
                ctx.ok("window-named", len({nm for nm, _ in cand}) == 1, "%s item %d is named %r" % (kind, i, names[0][e] if names else None))
                nm = cand[0][0]
                Wd = worlds[nm]
                start = None
                p = pc.points_list[e].double().numpy()
                d0 = depth[e, 0].double().numpy().reshape(H, W)
                for _, k in cand:
                    if np.array_equal(np.round(d0 * Wd.scale), Wd.frame(k)[1][::f, ::f]):
                        start = k
                if not ctx.ok("depth-in-metres", start is not None, "%s item %d: its first depth picture is none of the recorded ones" % (kind, i)):
                    return
                true = [np.linalg.inv(Wd.cams[start]) @ Wd.cams[start + j * (dil + 1)] for j in range(L)]
                off = float(np.abs(pose[e].double().numpy() - np.array(true)).max())
                ctx.ok("poses-relative", off < 1e-3, "%s window at frame %d of %s: poses %.3g off" % (kind, start, nm, off))
                if agg:
                    ctx.eq("every-pixel-mapped", p.shape[0], H * W * L)
                dist, col, nrm = Wd.distance(p, start)
                lim = 2e-3 if kind != "Scannet" else 4e-3
                if not agg:
                    lim += 8e-3          # merged points are means of neighbours up to 5 cm apart on a curved wall
                ctx.ok("map-on-surface", float(dist.max()) < lim, "%s (pictures stored at %dx the size, channels_first=%s): map points up to %.4f m off the recorded surface" % (kind, f, cf, float(dist.max())),
                       key="pipeline/map-on-surface/" + kind)
                c = pc.colors_list[e].double().numpy() * (255 if norm else 1)
                # one delivered pixel spans up to 55 levels; resizing shifts colours by half of one
                tol, mean = (2.5, 2.5) if agg and f == 1 else (60.0, 20.0)
                err = np.abs(c - col * 255)
                ctx.ok("map-colours", float(err.max()) < tol and float(err.mean()) < mean, "%s: map colours up to %.1f levels off" % (kind, float(err.max())), key="pipeline/map-colours/" + kind)
                nn = pc.normals_list[e].double().numpy()
                good = np.linalg.norm(nn, axis=1) > .5
                cosine = np.abs((nn * nrm).sum(1))[good]
                ctx.ok("map-normals", good.mean() > .7 and np.median(cosine) > .97, "%s: normals of the map: median |cosine| %.3f, %.2f of them set" % (kind, float(np.median(cosine)) if len(cosine) else 0, good.mean()))
                ctx.state(kind, f, L, dil, agg, cf, norm)
                ctx.count("points", len(p))


def odometry(ctx):
    """frames read from files register to the recorded motion"""
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    from gradslam.structures.rgbdimages import RGBDImages
    rng = ctx.rng
    kind = ["ICL", "TUM", "Scannet"][ctx.index % 3]
    H, W, n = 36, 48, 3
    with DS.Scratch() as root:
        cls, pos, worlds = record(rng, root, kind, n, H, W, step=.01, amp=(.15, .3), many=6)
        kw = dict(height=H, width=W)
        kw.update(dict(scenes=None, return_labels=False) if kind == "Scannet" else dict(seqlen=n))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = cls(*pos, **kw)
            color, depth, K, pose = [torch.stack(x) for x in zip(*(ds[i][:4] for i in range(6)))]
        odom = str(rng.choice(["icp", "gradicp"]))
        slam = (ICPSLAM if rng.random() < .5 else PointFusion)(odom=odom, dsratio=1, numiters=15)
        # recorded poses beyond the first are not shown to the odometry
        hidden = pose.clone()
        hidden[:, 1:] = torch.eye(4)
        pc, rec = slam(RGBDImages(color, depth, K, hidden))
        r, t = rec.double().numpy(), pose.double().numpy()
        ratio = sorted(float(np.abs(np.linalg.inv(t[e]) @ r[e] - np.eye(4)).max() / max(np.abs(t[e] - np.eye(4)).max(), 2e-3)) for e in range(6))
        ctx.count("odometry:" + odom)
        ctx.set(kind=kind, odom=odom, ratio=ratio)
        # a few registrations may fall into wrong minima, not nearly all
        ctx.ok("motion-recovered", ratio[1] < .5, "%s with %s: trajectory errors relative to the motion %s" % (kind, odom, np.round(ratio, 3)))
        ctx.state(kind, odom, round(ratio[1], 2))


def digest(item):
    return [x if isinstance(x, str) else (tuple(x.shape), str(x.dtype), x.numpy().tobytes()) for x in item]


def same_batch(b, items):
    for k in range(len(items[0])):
        part = b[k]
        if isinstance(items[0][k], str):
            if list(part) != [i[k] for i in items]:
                return False
        elif not torch.equal(part, torch.stack([i[k] for i in items])):
            return False
    return True


def readers(ctx):
    """a reader is a plain value: copies, pickles, loader workers and other readers change nothing"""
    from torch.utils.data import DataLoader
    rng = ctx.rng
    kind = ["ICL", "TUM", "Scannet"][ctx.index % 3]
    with DS.Scratch() as root:
        cls, pos, worlds = record(rng, root, kind, 4, 4, 5)
        kw = dict(height=4, width=5)
        kw.update(dict(scenes=None) if kind == "Scannet" else dict(seqlen=2, stride=1))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = cls(*pos, **kw)
            ref = [ds[i] for i in range(len(ds))]
            want = [digest(x) for x in ref]
            # another reader over the same folder, with other options, used in between
            other = cls(*pos, **dict(kw, height=3, width=4, normalize_color=True, channels_first=True))
            other[0]
            ctx.ok("independent-readers", [digest(ds[i]) for i in range(len(ds))] == want, "%s: a second reader changed what the first delivers" % kind)
            for what, d2 in (("pickled", pickle.loads(pickle.dumps(ds))), ("deep-copied", copy.deepcopy(ds)), ("copied", copy.copy(ds))):
                idx = [int(i) for i in rng.permutation(len(ds))]
                ctx.ok("copies-serve-the-same", len(d2) == len(ds) and all(digest(d2[i]) == want[i] for i in idx), "%s: the %s reader delivers something else" % (kind, what))
            # delivered tensors are the caller's: changing them does not reach the next read
            x = ds[0]
            for t in x:
                if torch.is_tensor(t):
                    t.mul_(0).add_(7)
            ctx.ok("fresh-items", digest(ds[0]) == want[0] and digest(x) != want[0], "%s: writing into an item changed the next read" % kind)
            if rng.random() < .3:
                import multiprocessing as mp
                cfg = mp.current_process()._config
                old = cfg.get("daemon")
                cfg["daemon"] = False
                try:
                    bs = int(rng.integers(1, 4))
                    got = list(DataLoader(ds, batch_size=bs, num_workers=int(rng.integers(1, 4)), shuffle=False, timeout=60))
                finally:
                    cfg["daemon"] = old
                ok = len(got) == -(-len(ref) // bs) and all(same_batch(b, ref[i * bs:(i + 1) * bs]) for i, b in enumerate(got))
                ctx.ok("workers-serve-the-same", ok, "%s: batches from loader workers are not the stacked items" % kind)
            ctx.set(kind=kind, items=len(ds))
    ctx.state(kind, len(ref))


CHECK = Check("C29", [Family("pipeline", pipeline, 90, 2500), Family("odometry", odometry, 12, 300), Family("readers", readers, 36, 600)],
              require=["windows", "poses-recovered", "depth-in-metres", "poses-relative", "every-pixel-mapped", "map-on-surface", "map-colours", "map-normals", "motion-recovered", "copies-serve-the-same", "fresh-items", "workers-serve-the-same"],
              rule="one situation per (reader, stored size, window shape, map kind, layout) and per outcome of a registration",
              assumptions=["the recorded scene is a smooth analytic wall rendered at the delivered size or twice it, stored with the dataset's depth scale and text formats",
                           "distance to the surface is allowed 2 mm (Scannet 4 mm: coarser depth), 8 mm more for merged points"])
