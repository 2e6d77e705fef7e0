"""C19: items of the dataset readers."""
import os
import warnings

import numpy as np
import torch

from vlib import dsets as DS
from vlib.core import Check, Family, Skip

FLAGS = ("return_depth", "return_intrinsics", "return_pose", "return_transform", "return_names")


def expect_item(ctx, tag, item, fr, o, K, scale):
    """item against the stored frames: o = options, K = expected intrinsics"""
    L, H, W, cf = len(fr), o["height"], o["width"], o["channels_first"]
    parts = ["color"] + [p for p in ("depth", "intrinsics", "pose", "transform", "names", "extra") if o.get("return_" + p)]
    if not ctx.ok("item-parts", isinstance(item, tuple) and len(item) == len(parts), "%s: %d parts, expected %s" % (tag, len(item), parts)):
        return
    it = dict(zip(parts, item))
    for k in ("color", "depth", "intrinsics", "pose", "transform"):
        if k in it:
            ctx.ok("item-type", torch.is_tensor(it[k]) and it[k].dtype == torch.float32, "%s: %s is %s" % (tag, k, it[k].dtype if torch.is_tensor(it[k]) else type(it[k])))
    c = it["color"]
    if ctx.ok("item-shape", tuple(c.shape) == ((L, 3, H, W) if cf else (L, H, W, 3)), "%s: colour shape %s" % (tag, tuple(c.shape))):
        c = c.permute(0, 2, 3, 1) if cf else c
        for j, f in enumerate(fr):
            w = DS.resize_linear(f.color, H, W) / (255.0 if o["normalize_color"] else 1.0)
            ctx.close("colour-is-the-picture", c[j], w, 1e-6, 1e-5 if o["normalize_color"] else 2e-3, "%s: colour of position %d (frame %d)" % (tag, j, f.k))
    if "depth" in it:
        d = it["depth"]
        if ctx.ok("item-shape", tuple(d.shape) == ((L, 1, H, W) if cf else (L, H, W, 1)), "%s: depth shape %s" % (tag, tuple(d.shape))):
            d = d[:, 0] if cf else d[..., 0]
            for j, f in enumerate(fr):
                ctx.ok("depth-is-stored-over-scale", DS.nearest_ok(d[j].double().numpy(), f.depth.astype(np.float64) / scale), lambda: "%s: depth of position %d (frame %d): range %g..%g, stored %g..%g" % (
                    tag, j, f.k, d[j].min(), d[j].max(), f.depth.min() / scale, f.depth.max() / scale))
    if "intrinsics" in it:
        ctx.close("intrinsics-scaled-with-picture", it["intrinsics"], DS.scaled_K(K, H, W)[None], 1e-6, 1e-6, "%s: intrinsics" % tag)
    P = [f.pose for f in fr]
    sc = 1 + max(np.abs(p[:3, 3]).max() for p in P)
    rel = np.stack([np.linalg.inv(P[0]) @ p for p in P])
    step = np.stack([np.eye(4)] + [np.linalg.inv(P[j - 1]) @ P[j] for j in range(1, L)])
    if "pose" in it:
        ctx.close("poses-relative-to-first", it["pose"], rel, 0, 3e-5 * sc, "%s: poses" % tag)
    if "transform" in it:
        ctx.close("transforms-between-frames", it["transform"], step, 0, 3e-5 * sc, "%s: transforms" % tag)
        M = np.eye(4)
        for j in range(L):
            M = M @ it["transform"][j].double().numpy()
            if "pose" in it:
                ctx.close("transforms-compose-to-poses", M, it["pose"][j], 0, 1e-4 * sc * (j + 1), "%s: product of transforms up to %d" % (tag, j))
    return it


def stored_size(rng):
    top = 9 if rng.random() < .95 else 70
    return int(rng.integers(1, top)), int(rng.integers(1, top))


def options(rng, h, w):
    big = rng.random() < .5
    o = dict(height=int(rng.integers(1, 13)) if big else h, width=int(rng.integers(1, 13)) if big else w,
             channels_first=bool(rng.random() < .5), normalize_color=bool(rng.random() < .5))
    if rng.random() < .05:       # one long side of the pictures asked for
        o[["height", "width"][int(rng.integers(0, 2))]] = int(rng.integers(13, 900))
    for f in FLAGS:
        o[f] = bool(rng.random() < .7)
    return o


def access(ctx, ds, check, tag):
    """items in any order, twice; iteration stops at the end; a mutated item does not come back"""
    rng = ctx.rng
    n = len(ds)
    order = [int(i) for i in rng.permutation(n)][:6]
    first = {}
    for i in order:
        it = ds[i]
        check(i, it)
        first[i] = [x.clone() if torch.is_tensor(x) else x for x in it]
    for i in reversed(order):
        it = ds[i]
        same = len(it) == len(first[i]) and all((torch.equal(a, b) if torch.is_tensor(a) else a == b) for a, b in zip(it, first[i]))
        ctx.ok("reading-twice-agrees", same, "%s: item %d differs when read again" % (tag, i))
    ctx.raises("index-past-end", (IndexError,), lambda: ds[n], "%s: item %d of %d" % (tag, n, n))
    ctx.eq("iteration-length", sum(1 for _ in ds) if n < 8 else n, n, "%s: iteration" % tag)


def icl(ctx):
    from gradslam.datasets.icl import ICL
    rng = ctx.rng
    with DS.Scratch() as base:
        h, w = stored_size(rng)
        o = options(rng, h, w)
        posesfile = o["return_pose"] or o["return_transform"] or rng.random() < .5
        trajs = dict(DS.icl(rng, base, num, int(rng.integers(2, 10)), h, w, textured=True, posesfile=posesfile, t=t, tail=bool(rng.random() < .7)) for t, num in enumerate([str(v) for v in rng.permutation(4)[:int(rng.integers(1, 3))]]))
        p = dict(seqlen=int(rng.integers(1, 4)), dilation=[None, 0, 1][int(rng.integers(0, 3))], stride=[None, 1, 2][int(rng.integers(0, 3))], start=[None, 0, 1, 3][int(rng.integers(0, 4))])
        ctx.set(stored=(h, w), **o, **p)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            one = {}
            for t in trajs:          # one reader per trajectory: the windows are known by number
                ds = ICL(base, (t,), **p, **o)
                ws = DS.windows(trajs[t], p["seqlen"], p["dilation"], p["stride"], p["start"] or 0)
                ctx.eq("length", len(ds), len(ws), "ICL length")
                one[t] = ds

                def check(i, it):
                    if i < len(ws):
                        expect_item(ctx, "ICL", it, ws[i], o, DS.ICL_K, 5000.0)
                access(ctx, ds, check, "ICL")
            if len(trajs) > 1:       # several trajectories: the same items, trajectory after trajectory
                ds = ICL(base, None if rng.random() < .5 else tuple(trajs), **p, **o)
                items = [ds[i] for i in range(len(ds))]
                per = {t: [one[t][i] for i in range(len(one[t]))] for t in trajs}
                orders = [sum((per[t] for t in q), []) for q in ([list(trajs)] if len(trajs) == 1 else [list(trajs), list(trajs)[::-1]])]
                eq = lambda x, y: len(x) == len(y) and all(torch.equal(a, b) if torch.is_tensor(a) else a == b for a, b in zip(x, y))
                ctx.ok("several-trajectories-concatenate", any(len(q) == len(items) and all(eq(x, y) for x, y in zip(q, items)) for q in orders), "ICL: reader over several trajectories delivers other items")
    ctx.state("icl", h, w, tuple(o.items()), tuple(p.items()))


def tum(ctx):
    from gradslam.datasets.tum import TUM
    rng = ctx.rng
    with DS.Scratch() as base:
        h, w = stored_size(rng)
        o = options(rng, h, w)
        o["return_timestamps"] = bool(rng.random() < .6)
        need = o["return_pose"] or o["return_transform"]
        t, fr = DS.tum(rng, base, "%d_x" % rng.integers(1, 4), int(rng.integers(2, 10)), h, w, textured=True, posesfile=need or rng.random() < .5, drop=float(rng.choice([0, .15])))
        p = dict(seqlen=int(rng.integers(1, 4)), dilation=[None, 0, 1][int(rng.integers(0, 3))], stride=[None, 1, 2][int(rng.integers(0, 3))], start=[None, 0, 1, 3][int(rng.integers(0, 4))])
        ctx.set(stored=(h, w), **o, **p)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = TUM(base, None, **p, **o)
            use = [f for f in fr[p["start"] or 0:] if f.has_depth and (f.has_pose or not need)]
            ws = DS.windows(use, p["seqlen"], p["dilation"], p["stride"])
            ctx.eq("length", len(ds), len(ws), "TUM length")

            def check(i, it):
                if i < len(ws):
                    oo = dict(o, return_extra=o["return_timestamps"])
                    got = expect_item(ctx, "TUM", it, ws[i], oo, DS.TUM_K, 5000.0)
                    if got and "extra" in got:
                        ctx.ok("timestamps", [l.split()[1::2] for l in got["extra"].split("\n")] == [[f.s_rgb, f.s_depth, f.s_pose if need else "None"] for f in ws[i]], "TUM: timestamps %r" % got["extra"])
            access(ctx, ds, check, "TUM")
    ctx.state("tum", h, w, tuple(o.items()), tuple(p.items()))


def scannet(ctx):
    from gradslam.datasets.scannet import Scannet
    rng = ctx.rng
    with DS.Scratch() as root:
        base, meta = os.path.join(root, "scans"), os.path.join(root, "meta")
        h, w = stored_size(rng)
        o = options(rng, h, w)
        o["return_labels"] = bool(rng.random() < .6)
        classes = str(rng.choice(["nyu40", "scannet20", "NYU40", "ScanNet20"]))
        seqs, Ks = {}, {}
        for q in range(int(rng.integers(1, 4))):
            K = np.eye(4); K[0, 0], K[1, 1], K[0, 2], K[1, 2] = np.round(rng.uniform(100, 600, 4), 5)
            nm, fr = DS.scannet(rng, base, meta, "scene%04d_00" % (q // 2), q, int(rng.integers(1, 5)), h, w, textured=True, t=q, K=K, shared=bool(rng.random() < .6))
            seqs[nm], Ks[nm] = fr, K
        names = sorted(seqs)
        short = min(len(v) for v in seqs.values())
        start = int(rng.integers(0, short))
        end = -1 if rng.random() < .5 else int(rng.integers(start + 1, short + 1))
        ctx.set(stored=(h, w), start=start, end=end, classes=classes, **o)
        ds = Scannet(base, meta, None, start=start, end=end, seg_classes=classes, **o)
        ctx.eq("length", len(ds), len(names), "Scannet length")
        from checks.c26 import NYU_TO_SCANNET

        def check(i, it):
            fr = seqs[names[i]][start:None if end == -1 else end]
            oo = dict(o, return_extra=o["return_labels"])
            got = expect_item(ctx, "Scannet", it, fr, oo, Ks[names[i]], 1000.0)
            if got and "names" in got:
                ctx.eq("names", got["names"], names[i], "Scannet name")
            if got and "extra" in got:
                lab = got["extra"]
                if ctx.ok("item-shape", tuple(lab.shape[:3]) == (len(fr), o["height"], o["width"]) and lab.numel() == len(fr) * o["height"] * o["width"], "label shape %s" % (tuple(lab.shape),)):
                    for j, f in enumerate(fr):
                        want = f.label if classes.lower() == "nyu40" else NYU_TO_SCANNET[f.label]
                        ctx.ok("labels", DS.nearest_ok(lab[j].reshape(o["height"], o["width"]).double().numpy(), want.astype(float)), "labels of position %d" % j)
        access(ctx, ds, check, "Scannet")
    ctx.state("scannet", h, w, tuple(o.items()), start, end, classes)


def full_size(ctx):
    """the documented 480x640 pictures, resized: the camera still sees the same rays"""
    from gradslam.datasets.icl import ICL
    from gradslam.datasets.tum import TUM
    rng = ctx.rng
    with DS.Scratch() as base:
        kind = str(rng.choice(["icl", "tum"]))
        H, W = [(480, 640), (240, 320), (120, 160), (96, 200)][int(rng.integers(0, 4))]
        if kind == "icl":
            t, fr = DS.icl(rng, base, "1", 1, 480, 640)
            f = fr[0]
        else:
            t, fr = DS.tum(rng, base, "1_a", 1, 480, 640, noise=False)
            f = fr[0]
        # a smooth colour ramp: colour tells the source pixel
        x, y = np.meshgrid(np.arange(640), np.arange(480))
        f.color = np.stack([x * 255.0 / 639, y * 255.0 / 479, 0 * x], -1).round().astype(np.uint8)
        nm = f.name + ".png"
        DS.write_png(os.path.join(base, t, "rgb", nm), f.color)
        cf = bool(rng.random() < .5)
        ds = (ICL if kind == "icl" else TUM)(base, seqlen=1, height=H, width=W, channels_first=cf)
        it = ds[0]
        c = it[0][0].permute(1, 2, 0) if cf else it[0][0]
        K = it[2][0].double().numpy()
        K0 = DS.ICL_K if kind == "icl" else DS.TUM_K
        for _ in range(20):
            i, j = int(rng.integers(1, H - 1)), int(rng.integers(1, W - 1))
            u, v = float(c[i, j, 0]) * 639 / 255, float(c[i, j, 1]) * 479 / 255      # source pixel
            ray = np.array([(u - K0[0, 2]) / K0[0, 0], (v - K0[1, 2]) / K0[1, 1]])
            got = np.array([(j - K[0, 2]) / K[0, 0], (i - K[1, 2]) / K[1, 1]])
            tol = (640 / W / 2 + 480 / H / 2 + 2.6) / 480          # half a pixel of either grid, colour rounding
            ctx.ok("rays-kept-by-resizing", np.abs(ray - got).max() < tol, "%s %dx%d pixel (%d,%d): ray %s, source ray %s" % (kind, H, W, i, j, got, ray))
    ctx.state(kind, H, W, cf)


def loader(ctx):
    """batches of a DataLoader are the stacked items"""
    from torch.utils.data import DataLoader
    from gradslam.datasets.icl import ICL
    from gradslam.datasets.tum import TUM
    rng = ctx.rng
    with DS.Scratch() as base:
        kind = str(rng.choice(["icl", "tum"]))
        t, fr = DS.icl(rng, base, "2", 9, 3, 4, textured=True) if kind == "icl" else DS.tum(rng, base, "2_b", 9, 3, 4, textured=True)
        ds = (ICL if kind == "icl" else TUM)(base, seqlen=2, stride=1, height=3, width=4, channels_first=bool(rng.random() < .5))
        bs = int(rng.integers(1, 5))
        got = list(DataLoader(ds, batch_size=bs))
        items = [ds[i] for i in range(len(ds))]
        ctx.eq("loader-batches", len(got), -(-len(items) // bs), "number of batches")
        for b, batch in enumerate(got):
            part = items[b * bs:(b + 1) * bs]
            for k in range(5):
                ctx.ok("loader-batches", torch.equal(batch[k], torch.stack([p[k] for p in part])), "batch %d part %d" % (b, k))
    ctx.state(kind, bs)


def utilities(ctx):
    from gradslam.datasets import datautils as DU
    rng = ctx.rng
    shape = tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(0, 3)))) + (int(rng.integers(4, 8)), int(rng.integers(1, 8)), 3)
    a = rng.integers(0, 256, shape).astype(rng.choice(["uint8", "float32", "float64", "int64"]))
    for x in (a, torch.tensor(a)):
        keep = x.copy() if isinstance(x, np.ndarray) else x.clone()
        n = DU.normalize_image(x)
        ctx.close("normalize-image", n, a.astype(np.float64) / 255, 1e-6, 1e-7, "normalize_image")
        ctx.ok("kind-kept", torch.is_tensor(n) == torch.is_tensor(x), "normalize_image of %s gave %s" % (type(x), type(n)))
        c = DU.channels_first(x)
        ctx.ok("kind-kept", torch.is_tensor(c) == torch.is_tensor(x) and c.dtype == x.dtype, "channels_first of %s gave %s" % (type(x), type(c)))
        ctx.eq("channels-first", c, np.moveaxis(a, -1, -3), "channels_first %s" % (shape,))
        ctx.eq("inputs-untouched", x, keep, "image changed")
    n = int(rng.choice([3, 4]))
    bshape = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, 3))))
    K = np.zeros(bshape + (n, n)); K[..., range(n), range(n)] = 1
    K[..., 0, 0], K[..., 1, 1] = rng.uniform(100, 600, bshape), rng.uniform(-600, -100, bshape)
    K[..., 0, 2], K[..., 1, 2] = rng.uniform(10, 600, bshape), rng.uniform(10, 600, bshape)
    hr, wr = float(rng.choice([1, .5, .3, 2.5])), float(rng.choice([1, .25, .7, 3]))
    want = K.copy(); want[..., 0, :] *= wr; want[..., 1, :] *= hr
    for x in (K, torch.tensor(K), torch.tensor(K).float()):
        keep = x.copy() if isinstance(x, np.ndarray) else x.clone()
        ctx.close("scale-intrinsics", DU.scale_intrinsics(x, hr, wr), want, 1e-6, 1e-6, "scale_intrinsics %s" % (bshape,))
        ctx.eq("inputs-untouched", x, keep, "intrinsics changed")
    from vlib import gen
    L = int(rng.integers(1, 7))
    P = gen.rigids(rng, (L,))
    if rng.random() < .4:          # poses need not be rigid
        P[:, :3, :3] *= rng.uniform(.5, 2, (L, 1, 1))
    keep = P.copy()
    lst = [p.copy() for p in P]
    for x in (P, lst):
        T = DU.poses_to_transforms(x)
        ctx.eq("transforms-length", len(T), L, "poses_to_transforms")
        M = P[0].copy()
        for k in range(L):
            if k:
                M = M @ T[k]
            ctx.close("transforms-rebuild-poses", M, P[k], 1e-7, 1e-7, "poses_to_transforms %d" % k)
        ctx.close("transforms-first-identity", T[0], np.eye(4), 0, 0)
        ctx.eq("inputs-untouched", np.stack(list(x)), keep, "poses changed")
    ctx.state(shape, str(a.dtype), bshape, n, L)


CHECK = Check("C19", [
    Family("icl", icl, 120, 2500),
    Family("tum", tum, 150, 3000),
    Family("scannet", scannet, 150, 3000),
    Family("full_size", full_size, 12, 150),
    Family("loader", loader, 15, 200),
    Family("utilities", utilities, 150, 2500),
], require=["item-parts", "item-shape", "colour-is-the-picture", "depth-is-stored-over-scale", "intrinsics-scaled-with-picture", "poses-relative-to-first", "transforms-between-frames", "transforms-compose-to-poses",
            "reading-twice-agrees", "index-past-end", "rays-kept-by-resizing", "labels", "timestamps", "several-trajectories-concatenate", "loader-batches"],
    rule="case = one generated dataset folder and one configuration, items read in random order and again; distinct = (stored size, options, windowing)",
    assumptions=["bilinear colour resizing with half-pixel centres and nearest-neighbour depth; where a nearest source index is an exact integer boundary either neighbour is accepted"])
