"""C26: label remapping and colouring."""
from collections import OrderedDict

import numpy as np
import torch

from vlib import gen
from vlib.core import Check, Family

# published class lists (index = label id)
NYU40 = """unlabeled wall floor cabinet bed chair sofa table door window bookshelf picture counter blinds desk shelves
curtain dresser pillow mirror floormat clothes ceiling books refrigerator television paper towel showercurtain box whiteboard
person nightstand toilet sink lamp bathtub bag otherstructure otherfurniture otherprop""".split()
SCANNET20 = """unlabeled wall floor cabinet bed chair sofa table door window bookshelf picture counter desk curtain
refrigerator showercurtain toilet sink bathtub otherfurniture""".split()
NYU_TO_SCANNET = np.array([SCANNET20.index(n) if n in SCANNET20 else 0 for n in NYU40], dtype=np.uint8)
# published ScanNet palette
COLORS = dict(unlabeled=(0, 0, 0), wall=(174, 199, 232), floor=(152, 223, 138), cabinet=(31, 119, 180), bed=(255, 187, 120), chair=(188, 189, 34), sofa=(140, 86, 75), table=(255, 152, 150),
              door=(214, 39, 40), window=(197, 176, 213), bookshelf=(148, 103, 189), picture=(196, 156, 148), counter=(23, 190, 207), blinds=(178, 76, 76), desk=(247, 182, 210), shelves=(66, 188, 102),
              curtain=(219, 219, 141), dresser=(140, 57, 197), pillow=(202, 185, 52), mirror=(51, 176, 203), floormat=(200, 54, 131), clothes=(92, 193, 61), ceiling=(78, 71, 183), books=(172, 114, 82),
              refrigerator=(255, 127, 14), television=(91, 163, 138), paper=(153, 98, 156), towel=(140, 153, 101), showercurtain=(158, 218, 229), box=(100, 125, 154), whiteboard=(178, 127, 135),
              person=(120, 185, 128), nightstand=(146, 111, 194), toilet=(44, 160, 44), sink=(112, 128, 144), lamp=(96, 207, 209), bathtub=(227, 119, 194), bag=(213, 92, 176),
              otherstructure=(94, 106, 211), otherfurniture=(82, 84, 163), otherprop=(100, 85, 144))


def remap(ctx):
    from gradslam.datasets.scannet import nyu40_to_scannet20
    rng = ctx.rng
    shape = tuple(int(v) for v in rng.integers(0 if rng.random() < .1 else 1, 12, int(rng.integers(0, 5))))
    if rng.random() < .02:
        shape = tuple(int(v) for v in rng.integers(1, 700, 2))
    dt = str(rng.choice(["uint8", "uint8", "int32", "int64", "uint16", "float32", "float64"]))
    few = rng.random() < .3
    lab = rng.integers(0, 41, shape)
    if few:
        lab = rng.choice(rng.integers(0, 41, 2), shape)
    if len(shape) and np.prod(shape) >= 41:
        lab.reshape(-1)[:41] = rng.permutation(41)
    x = np.asarray(lab, dtype=dt)
    if rng.random() < .2 and x.ndim >= 2:
        x = x.swapaxes(0, 1)
    if rng.random() < .15 and x.ndim >= 1:
        x = np.repeat(x, 2, 0)[::2]
    if x.ndim == 0:
        x = x.reshape(1)
    keep = x.copy()
    got = nyu40_to_scannet20(x)
    ctx.eq("inputs-untouched", x, keep, "nyu40_to_scannet20 changed its input")
    ctx.ok("shape-and-type-kept", np.shape(got) == keep.shape and got.dtype == keep.dtype, "shape %s dtype %s" % (np.shape(got), got.dtype))
    ctx.eq("remap-by-table", np.asarray(got), NYU_TO_SCANNET[keep.astype(int)], "nyu40_to_scannet20 %s" % dt)
    ctx.eq("remap-repeatable", np.asarray(nyu40_to_scannet20(x)), np.asarray(got), "second call differs")
    if x.size:
        for c in np.unique(keep):
            ctx.count("class-%d" % int(c))
    ctx.state(shape, dt, few)


def palette(ctx):
    from gradslam.datasets.scannet import get_color_encoding
    rng = ctx.rng
    for name, lst in (("nyu40", NYU40), ("scannet20", SCANNET20)):
        nm = "".join(ch.upper() if rng.random() < .3 else ch for ch in name)
        enc = get_color_encoding(nm)
        ctx.ok("palette-classes-in-label-order", list(enc) == lst, "%s: classes %s" % (nm, list(enc)))
        ctx.ok("palette-published-colours", all(tuple(enc[k]) == COLORS[k] for k in enc if k in COLORS), lambda: "%s: %s" % (nm, [k for k in enc if tuple(enc[k]) != COLORS.get(k)]))
        ctx.ok("palette-colours-distinct", len({tuple(v) for v in enc.values()}) == len(enc), "%s: classes share a colour" % nm)
        enc["wall"] = (1, 2, 3)
        ctx.ok("palette-fresh", tuple(get_color_encoding(name)["wall"]) == COLORS["wall"], "changing a returned palette changes later ones")
    ctx.state("palette")


def colouring(ctx):
    from gradslam.datasets.datautils import create_label_image
    from gradslam.datasets.scannet import get_color_encoding
    rng = ctx.rng
    kind = str(rng.choice(["nyu40", "scannet20", "dict", "list", "array"]))
    if kind in ("nyu40", "scannet20"):
        pal = get_color_encoding(kind)
        colors = list(pal.values())
    else:
        n = int(rng.integers(1, 60))
        colors = [tuple(int(v) for v in rng.integers(0, 256, 3)) for _ in range(n)]
        pal = OrderedDict(("c%d" % ((i * 7) % 101), c) for i, c in enumerate(colors)) if kind == "dict" else (colors if kind == "list" else np.array(colors, dtype=np.uint8))
        if kind == "dict" and rng.random() < .3:
            pal = dict(pal)
    n = len(colors)
    h, w = gen.count(rng, 1, 14, 14, 400, .04), gen.count(rng, 1, 14, 14, 400, .04)
    if rng.random() < .05:
        w = h
    dt = str(rng.choice(["uint8", "int64", "int32", "int16", "float32"], p=[.3, .3, .3, .05, .05]))
    x = rng.integers(0, n, (h, w)).astype(dt)
    if rng.random() < .1:
        x[:] = x[0, 0]
    if rng.random() < .1 and not dt.startswith("u"):
        x[rng.random((h, w)) < .2] = -1         # the usual mark of "ignore": no class, stays black
    if rng.random() < .3:
        x[rng.random((h, w)) < .2] = min(n + int(rng.integers(0, 5)), 255)       # no such class: stays black
    keep, pk = x.copy(), [tuple(c) for c in colors]
    got = create_label_image(x, pal)
    want = np.array([pk[v] if 0 <= v < n else (0, 0, 0) for v in keep.reshape(-1).astype(int)]).reshape(h, w, 3)
    ctx.ok("shape-and-type-kept", got.shape == (h, w, 3) and got.dtype == np.uint8, "shape %s dtype %s" % (got.shape, got.dtype))
    ctx.eq("pixel-has-class-colour", got, want, "create_label_image with %s palette" % kind)
    ctx.eq("inputs-untouched", x, keep, "create_label_image changed the prediction")
    ctx.ok("inputs-untouched", [tuple(c) for c in (pal.values() if isinstance(pal, dict) else pal)] == pk, "palette changed")
    ctx.state(kind, n, dt, (h, w))


def reader(ctx):
    """labels as the Scannet reader delivers them: every pixel the (remapped) class of one of its nearest source pixels"""
    from gradslam.datasets.scannet import Scannet
    from vlib import dsets as DS
    rng = ctx.rng
    with DS.Scratch() as root:
        base, meta = root + "/scans", root + "/meta"
        h, w = gen.count(rng, 1, 12, 12, 70, .05), gen.count(rng, 1, 12, 12, 70, .05)
        _, fr = DS.scannet(rng, base, meta, "scene0000_00", 0, int(rng.integers(1, 4)), h, w, textured=True)
        H, W = (h, w) if rng.random() < .3 else (gen.count(rng, 1, 16, 16, 500, .03), gen.count(rng, 1, 16, 16, 500, .03))
        name = str(rng.choice(["nyu40", "scannet20"]))
        classes = "".join(ch.upper() if rng.random() < .4 else ch for ch in name)
        kw = {} if classes == "scannet20" and rng.random() < .5 else {"seg_classes": classes}
        ds = Scannet(base, meta, None, height=H, width=W, return_depth=False, return_intrinsics=False, return_pose=False, return_transform=False, return_names=False,
                     channels_first=bool(rng.random() < .5), **kw)
        lab = ds[0][-1]
        ctx.set(stored=fr[0].label.shape, size=(H, W), classes=kw)
        if ctx.ok("reader-label-shape", lab.numel() == len(fr) * H * W and lab.shape[0] == len(fr), "labels %s of %d pictures" % (tuple(lab.shape), len(fr))):
            for j, f in enumerate(fr):
                want = f.label if name == "nyu40" else NYU_TO_SCANNET[f.label]
                ctx.ok("reader-labels", DS.nearest_ok(lab[j].reshape(H, W).double().numpy(), want.astype(float)), "labels of picture %d, %s, %s resized to %s" % (j, kw, f.label.shape, (H, W)))
        ctx.ok("reader-palette", list(ds.color_encoding) == (NYU40 if name == "nyu40" else SCANNET20), "%s: the palette of the reader lists %s" % (kw, list(ds.color_encoding)))
    ctx.state("reader", classes, h, w, H, W)


CHECK = Check("C26", [
    Family("remap", remap, 400, 8000),
    Family("palette", palette, 10, 100),
    Family("colouring", colouring, 400, 8000),
    Family("reader", reader, 60, 1000),
], require=["remap-by-table", "shape-and-type-kept", "inputs-untouched", "pixel-has-class-colour", "palette-published-colours", "palette-classes-in-label-order", "reader-labels", "reader-palette"] + ["class-%d" % i for i in range(41)],
    rule="case = one label image; distinct = (shape, dtype, palette)",
    assumptions=["label values are ids of the source label set (0..40)"])
