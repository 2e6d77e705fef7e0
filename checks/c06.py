"""C06: RGB-D frames become point clouds with one correctly attributed point per pixel."""
import numpy as np
import torch

from vlib import gen, rgbdmodel
from vlib.core import Check, Family


def _tagged(rng, cf=None, **kw):
    """A one-frame batch whose colours encode (batch, row, column)."""
    c = rgbdmodel.random_content(rng, L=1, big=.03, wide=.15, **kw)
    c.pix = None
    if cf is not None:
        c.cf = cf
    B, L, h, w = c.shape
    bb, yy, xx = np.meshgrid(np.arange(B), np.arange(h), np.arange(w), indexing="ij")
    c.rgb = np.stack([bb, yy, xx], -1).astype(float)[:, None]
    if rng.random() < .15:       # still exact: colours of any range are carried along
        c.rgb = c.rgb * float(rng.choice([-1, 2.0 ** -10, 2.0 ** 5, 2.0 ** 12])) + float(rng.choice([0, 0, 256, -1]))
    return c


def _snap(o):
    return {g: None if getattr(o, g) is None else getattr(o, g).clone() for g in ("rgb_image", "depth_image", "intrinsics", "poses")}, o.channels_first


def _check_snap(ctx, o, snap):
    s, cf = snap
    ctx.ok("frames-unchanged", o.channels_first == cf, "layout of the frame passed in changed")
    for g, t in s.items():
        u = getattr(o, g)
        ctx.ok("frames-unchanged", (t is None and u is None) or (t is not None and u is not None and u.shape == t.shape and gen.same(t, u)), "%s of the frame passed in changed" % g)


def _expect(c, V, glob, sel):
    """per batch element: (points, normals, mask-of-well-conditioned-normals, colours) at pixels sel[b] in row-major order"""
    out = []
    for b in range(c.shape[0]):
        ys, xs = np.nonzero(sel[b])
        v = V["global_vertex_map" if glob else "vertex_map"][0][b, 0][ys, xs]
        n, g = V["global_normal_map" if glob else "normal_map"]
        out.append((v, n[b, 0][ys, xs], g[b, 0][ys, xs], c.rgb[b, 0][ys, xs]))
    return out


def _match(ctx, pc, want, c, msg, normals=True):
    f32 = c.dtype == torch.float32
    sc = max(1, np.nan_to_num(np.abs(c.depth)).max() * 3, max([np.abs(w[0]).max(initial=0) for w in want], default=0), 0 if c.poses is None else np.abs(c.poses).max())
    if not ctx.ok("one-point-per-pixel", len(pc) == len(want), "%s: %d clouds for %d frames" % (msg, len(pc), len(want))):
        return
    for b, (v, n, g, col) in enumerate(want):
        k = pc.points_list[b].shape[0]
        if not ctx.ok("one-point-per-pixel", k == len(v), lambda: "%s: element %d has %d points, expected %d" % (msg, b, k, len(v))):
            continue
        ctx.close("colour-of-own-pixel", pc.colors_list[b], col, 0, 0, "%s element %d: colours (batch,row,col tags)" % (msg, b))
        ctx.close("vertex-of-own-pixel", pc.points_list[b], v, 0, (1e-4 if f32 else 1e-5) * sc, "%s element %d" % (msg, b))
        got = pc.normals_list[b].detach().double().numpy()
        ctx.close("normal-of-own-pixel", got[g], n[g], 0, 2e-2 if f32 else 1e-5, "%s element %d" % (msg, b))
        ctx.count("points", len(v))


def convert(ctx):
    from gradslam.structures.utils import pointclouds_from_rgbdimages
    rng = ctx.rng
    c = _tagged(rng, **(dict(h=int(rng.integers(1, 6)), w=int(rng.integers(1, 6))) if rng.random() < .3 else {}))
    o = c.build()
    for g in ("vertex_map", "normal_map", "valid_depth_mask", "global_normal_map"):
        if rng.random() < .3:
            getattr(o, g)
    snap = _snap(o)
    glob, filt = bool(rng.random() < .6), bool(rng.random() < .7)
    kw = {}
    if not glob or rng.random() < .5:
        kw["global_coordinates"] = glob
    if not filt or rng.random() < .5:
        kw["filter_missing_depths"] = filt
    pc = pointclouds_from_rgbdimages(o, **kw)
    V = c.views()
    sel = (c.depth[:, 0] > 0) if filt else np.ones_like(c.depth[:, 0], bool)
    _match(ctx, pc, _expect(c, V, glob, sel), c, "pointclouds_from_rgbdimages(%s)" % kw)
    _check_snap(ctx, o, snap)
    rgbdmodel.compare(ctx, "frames-unchanged", o, c, "frame after conversion", views=V)
    # the cloud does not alias the frame: writing to it leaves the frame alone
    ctx.set(shape=c.shape, cf=c.cf, kw=kw, valid=[int(s.sum()) for s in sel])
    ctx.state(c.shape[0], c.cf, glob, filt, c.poses is not None, tuple("none" if not s.any() else "all" if s.all() else "some" for s in sel))


def downsample_frame(ctx):
    from gradslam.odometry.icputils import downsample_rgbdimages
    rng = ctx.rng
    c = _tagged(rng, h=int(rng.integers(1, 12)), w=int(rng.integers(1, 12)))
    o = c.build()
    snap = _snap(o)
    r = int(rng.choice([1, 2, 3, 4, 5, 20]))
    pc = downsample_rgbdimages(o, r)
    sel = np.zeros_like(c.depth[:, 0], bool)
    sel[:, ::r, ::r] = True
    sel &= c.depth[:, 0] > 0
    _match(ctx, pc, _expect(c, c.views(), True, sel), c, "downsample_rgbdimages(%d)" % r)
    _check_snap(ctx, o, snap)
    ctx.set(shape=c.shape, cf=c.cf, ratio=r)
    ctx.state(c.shape[0], c.cf, r, tuple("none" if not s.any() else "all" if s.all() else "some" for s in sel))


def downsample_map(ctx):
    from gradslam.odometry.icputils import downsample_pointclouds
    from vlib import pcmodel
    rng = ctx.rng
    m = pcmodel.random_model(rng, big=.05)
    if sum(m.sizes()) == 0:
        m = pcmodel.random_model(rng, sizes=[3] * m.B)
    for c in m.clouds:
        c["points"][:, 0] = np.arange(len(c["points"]))
    pc = pcmodel.build(m, "list")
    pcmodel.warm(ctx, pc, m)
    rows = []
    for b, n in enumerate(m.sizes()):
        for k in rng.permutation(n):
            if rng.random() < .7:
                rows.append([b, int(k), int(rng.integers(0, 9)), int(rng.integers(0, 9))])
    if rng.random() < .5:
        rng.shuffle(rows)
    t = torch.tensor(rows, dtype=torch.int64).reshape(-1, 4)
    tb = t.clone()
    r = int(rng.choice([1, 2, 3, 4]))
    out = downsample_pointclouds(pc, t, r)
    nm = m.copy()
    for b, c in enumerate(nm.clouds):
        keep = [k for (bb, k, y, x) in rows if bb == b and y % r == 0 and x % r == 0]
        for a in c:
            c[a] = m.clouds[b][a][keep]
    nm.attrs = tuple(a for a in nm.attrs if a != "features")
    for c in nm.clouds:
        c.pop("features", None)
    pcmodel.compare(ctx, "map-downsampling-exact", out, nm, 0, 0, "downsample_pointclouds(%d)" % r)
    pcmodel.compare(ctx, "map-unchanged", pc, m, 0, 0, "map after downsample")
    ctx.ok("table-unchanged", torch.equal(t, tb), "association table changed")
    ctx.set(sizes=m.sizes(), ratio=r, rows=len(rows))
    ctx.state(m.B, r, m.attrs, 0 in nm.sizes())


CHECK = Check("C06", [
    Family("convert", convert, 400, 8000),
    Family("downsample_frame", downsample_frame, 250, 4000),
    Family("downsample_map", downsample_map, 250, 4000),
], require=["one-point-per-pixel", "colour-of-own-pixel", "vertex-of-own-pixel", "normal-of-own-pixel", "frames-unchanged", "map-downsampling-exact"],
    rule="case = one conversion of a frame batch whose colours encode (batch,row,column); distinct = (batch size, layout, options, poses, validity pattern per element)",
    assumptions=["normals compared where well conditioned"])
