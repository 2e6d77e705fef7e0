"""C25: visual exports show the actual points, colours and frames (the exported figure is decoded and compared)."""
import base64
import re
import warnings

import cv2
import numpy as np
import torch

from vlib import apicalls, gen, snap
from vlib.core import Check, Family, Skip
from vlib.pcmodel import random_model


def arr(x):
    """array held by a figure property"""
    return np.asarray(x if not isinstance(x, dict) else np.frombuffer(base64.b64decode(x["bdata"]), dtype=x["dtype"]).reshape([int(s) for s in str(x.get("shape", -1)).split(",")]))


def cloud(rng, v):
    m = random_model(rng, dtype=v.dtype, B=int(rng.integers(1, 5)), ragged=bool(rng.random() < .7), attrs=["points"] + [a for a in ("normals", "colors", "features") if rng.random() < .7])
    if rng.random() < .15:
        m = random_model(rng, dtype=v.dtype, attrs=["points", "colors", "normals"], sizes=[0, int(rng.integers(1, 60)), int(rng.integers(0, 3))])
    kind = "unit"
    if "colors" in m.attrs:
        kind = str(rng.choice(["unit", "255", "dark255", "over", "mixed", "mixed"]))
        for i, c in enumerate(m.clouds):
            k = kind if kind != "mixed" else str(rng.choice(["unit", "255"]))
            n = len(c["colors"])
            if k == "255":
                c["colors"] = rng.uniform(0, 255, (n, 3))
            elif k == "dark255":
                # a cloud in the 0..255 range most of whose points are nearly black
                c["colors"] = rng.uniform(0, 1, (n, 3))
                if n:
                    c["colors"][int(rng.integers(0, n))] = rng.uniform(100, 255, 3)
            elif k == "over":
                c["colors"] = rng.uniform(-40, 400, (n, 3))
            elif rng.random() < .3 and n:
                c["colors"] = rng.uniform(-.2, 1.05, (n, 3))
            c["colors"] = c["colors"].astype(np.float32).astype(np.float64)
    return m, kind


def want_colors(c, top):
    """element's colours brought to the display range 0..top"""
    x = c["colors"]
    if top == 255:
        x = x * 255 if (x < 1.1).all() else x
    else:
        x = x / 255 if (x > 1.1).any() else x
    return np.clip(x, 0, top)


def rows(ctx, mon, P, want, msg, key):
    """indices of the exported rows in the element; None if some row is no point of it"""
    idx = []
    for p in P:
        d = np.abs(want - p).max(-1) if len(want) else np.zeros(0)
        j = np.where(d == 0)[0]
        if not ctx.ok(mon, len(j) == 1, lambda: "%s: exported point %s is %s" % (msg, p.tolist(), "not a point of the element" if not len(j) else "ambiguous"), key=key):
            return None
        idx.append(int(j[0]))
    return idx


def clouds(ctx):
    rng = ctx.rng
    v = apicalls.V(rng)
    m, kind = cloud(rng, v)
    pc = v.pc(m)
    s = snap.Snapshot(pc)
    i = int(rng.integers(0, m.B))
    neg = bool(rng.random() < .2)
    ix = i - m.B if neg else i
    c = m.clouds[i]
    n = len(c["points"])
    op = str(rng.choice(["plotly", "open3d"]))
    mx = None if rng.random() < .35 else int(rng.integers(1, n + 4)) if rng.random() < .9 else n
    inc = bool(rng.random() < .75)
    nor = bool(rng.random() < .5)
    fig = bool(rng.random() < .5)
    size = int(rng.integers(1, 9))
    ctx.set(op=op, sizes=m.sizes(), index=ix, max_num_points=mx, attrs=m.attrs, colours=kind, dtype=str(v.dtype))
    key = "clouds/%s/" % op
    what = "%s(%d%s) of sizes %s" % (op, ix, "" if mx is None else ", max_num_points=%d" % mx, m.sizes())
    torch.manual_seed(ctx.seed % 1000)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op == "plotly":
            kw = {} if mx is None and rng.random() < .5 else {"max_num_points": mx}
            out = pc.plotly(ix, include_colors=inc, as_figure=fig, point_size=size, **kw)
            if fig:
                ctx.eq("figure-form", len(out.data), 1, "number of traces", key=key + "form")
                out = out.data[0]
            ctx.eq("figure-form", out.type, "scatter3d", "trace type", key=key + "form")
            ctx.eq("figure-form", out.mode, "markers", "trace mode", key=key + "form")
            ctx.eq("figure-form", out.marker.size, size, "point size", key=key + "form")
            P = np.stack([arr(out.x), arr(out.y), arr(out.z)], -1).astype(np.float64).reshape(-1, 3)
            C = out.marker.color
            C = None if C is None else arr(C)
            N = None
            top = 255
        else:
            out = pc.open3d(ix, include_colors=inc, max_num_points=mx, include_normals=nor)
            P, C, N = (None if x is None else np.asarray(x, dtype=np.float64).reshape(-1, 3) for x in (out.points, out.colors, out.normals))
            top = 1.0
    ctx.ok("export-leaves-object", not s.differences(), lambda: what + " changed the batch: " + "; ".join(s.differences()[:3]), key=key + "mutation")
    k = n if mx is None else min(mx, n)
    if not ctx.eq("point-count", len(P), k, what + ": number of exported points", key=key + "count"):
        return
    pts = c["points"]
    if len(np.unique(pts, axis=0)) != n:
        raise Skip()
    idx = rows(ctx, "points-of-element", P, pts, what, key + "points")
    if idx is None:
        return
    ctx.ok("no-repeats", len(set(idx)) == k, lambda: what + ": a point is exported twice", key=key + "repeats")
    if k == n:
        ctx.count("all-points-exported")
    want = inc and "colors" in m.attrs
    if ctx.ok("colours-present", (C is not None and (len(C) > 0 or k == 0)) == want or (C is not None and len(C) == 0 and not want), lambda: what + ": colours %s" % ("missing" if want else "exported though not asked for"), key=key + "colours-present") and want:
        w = want_colors(c, top)[idx]
        C = np.asarray(C, dtype=np.float64).reshape(-1, 3)
        # 8-bit colours: truncation or rounding are both fine
        ctx.close("own-colour", C, w, rtol=0, atol=1.0 + 1e-3 if top == 255 else 1e-6, msg=what + ": colours", key=key + "colours")
        ctx.ok("display-range", bool((C >= 0).all() and (C <= top).all()), what + ": colour outside the display range", key=key + "range")
    if op == "open3d":
        want = nor and "normals" in m.attrs
        if ctx.ok("normals-present", (N is not None and (len(N) > 0 or k == 0)) == want or (N is not None and len(N) == 0 and not want), lambda: what + ": normals %s" % ("missing" if want else "exported though not asked for"), key=key + "normals-present") and want:
            ctx.close("own-normal", N, c["normals"][idx], rtol=0, atol=0, msg=what + ": normals", key=key + "normals")
    ctx.state(op, m.attrs, kind, inc, nor, mx is None, k == n, n == 0, neg)


# ------------------------------------------------------------------ pictures
def picture(rng, h, w, ch, lo=20, hi=235):
    """smooth picture in which rows, columns and channels can be told apart; values kept away from the ends"""
    y, x = np.meshgrid(np.linspace(0, 1, h), np.linspace(0, 1, w), indexing="ij")
    out = []
    for _ in range(ch):
        a, b, c = rng.uniform(-1, 1, 3)
        f = a * x + b * y + .5 * c * x * y
        f = (f - f.min()) / max(f.max() - f.min(), 1e-9)
        p, q = np.sort(rng.uniform(lo, hi, 2))
        out.append(p + (q - p) * f)
    return np.stack(out, -1)


def decode(src):
    assert src.startswith("data:image/jpeg;base64,"), src[:40]
    im = cv2.imdecode(np.frombuffer(base64.b64decode(src.split(",", 1)[1]), np.uint8), cv2.IMREAD_UNCHANGED)
    return im[..., ::-1] if im.ndim == 3 else im


def looks_like(ctx, mon, src, want, msg, key, tol=8.0):
    """decoded JPEG against the picture (values 0..255); JPEG and 8-bit errors allowed"""
    im = decode(src)
    if not ctx.eq(mon, list(im.shape), list(want.shape), msg + ": picture size", key=key + "/size"):
        return False
    d = np.abs(im.astype(float) - want)
    return ctx.ok(mon, d.mean() < tol / 2 and np.percentile(d, 95) < tol * 2, lambda: "%s: decoded picture is off by %.1f on average (95%%: %.1f)" % (msg, d.mean(), np.percentile(d, 95)), key=key + "/content")


def frames(ctx):
    rng = ctx.rng
    v = apicalls.V(rng)
    b, l = gen.count(rng, 1, 4, 4, 9, .04), gen.count(rng, 1, 5, 5, 15, .05)
    h, w = gen.count(rng, 16, 40, 40, 200, .04), gen.count(rng, 16, 40, 40, 200, .04)
    if rng.random() < .05:
        w = h
    unit = bool(rng.random() < .5)
    rgb = np.stack([np.stack([picture(rng, h, w, 3) for _ in range(l)]) for _ in range(b)])
    over = bool(not unit and rng.random() < .2)
    if over:
        rgb = (rgb - 60) * 1.9         # some values below 0 and above 255 are clamped
    depth = np.stack([np.stack([picture(rng, h, w, 1, 20, 250)[..., 0] for _ in range(l)]) for _ in range(b)])
    dmax = rng.choice([.1, .5, 1, 3, 10, 80, 255, 1000, 5000], b) * rng.uniform(.3, 1, b)
    depth = depth / depth.max(axis=(1, 2, 3), keepdims=True) * dmax[:, None, None, None]
    empty = bool(rng.random() < .12)
    i = int(rng.integers(0, b))
    if empty:
        depth[i] = 0
    elif rng.random() < .4:
        depth[:, :, : h // 3] = 0
    # how missing depth is marked in the frames handed over
    raw = np.where(depth > 0, depth, rng.choice([0.0, np.nan, -1.0, -1000.0], p=[.4, .3, .15, .15]))
    units = [unit ^ bool(rng.random() < .3) if j != i else unit for j in range(b)]
    vals = np.stack([p / 255 if u else p for p, u in zip(rgb, units)])
    if all(units) and rng.random() < .3:
        vals = np.clip(vals, 0, 1)
    r = gen.Rgbd(vals, raw, np.broadcast_to(np.eye(4), (b, 1, 4, 4)).copy(), gen.rigids(rng, (b, l)) if rng.random() < .5 else None, v.dtype)
    cf = bool(rng.random() < .5)
    x = v.rgbd(r, cf)
    s = snap.Snapshot(x)
    dep = bool(rng.random() < .7)
    fig = bool(rng.random() < .5)
    ms = int(rng.integers(1, 500))
    ix = i - b if rng.random() < .2 else i
    ctx.set(shape=(b, l, h, w), index=ix, depth=dep, figure=fig, channels_first=cf, unit=units, missing=repr(raw[depth <= 0][:1]), no_depth=empty, dtype=str(v.dtype))
    what = "plotly(%d) of %d x %d frames of %d x %d" % (ix, b, l, h, w)
    key = "frames/"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = x.plotly(ix, include_depth=dep, as_figure=fig, ms_per_frame=ms)
    ctx.ok("export-leaves-object", not s.differences(), lambda: what + " changed the frames: " + "; ".join(s.differences()[:3]), key=key + "mutation")
    F = list(out.frames) if fig else list(out)
    if not ctx.eq("one-picture-per-frame", len(F), l, what + ": number of frames", key=key + "number"):
        return
    name = lambda f: f.name if fig else f["name"]
    data = lambda f: list(f.data if fig else f["data"])
    ctx.eq("frame-order", [str(name(f)) for f in F], [str(k) for k in range(l)], what + ": frame names", key=key + "names")
    shown = np.clip(rgb[i], 0, 255)
    labels = []
    for k, f in enumerate(F):
        d = data(f)
        if not ctx.eq("one-picture-per-frame", len(d), 2 if dep else 1, what + ": pictures of frame %d" % k, key=key + "pictures"):
            return
        looks_like(ctx, "colour-picture", d[0].source, shown[k], what + ": colour picture %d" % k, key + "colour", tol=14.0 if over else 8.0)
        if dep:
            tr = list(f.traces if fig else f["traces"])
            ctx.eq("frame-order", tr, [0, 1], what + ": traces of frame %d" % k, key=key + "traces")
            mt = re.search(r"scale: x([-+0-9.einf]+)", d[1].hovertemplate or "")
            if not ctx.ok("depth-scale", mt is not None, what + ": the depth picture does not state its scale", key=key + "scale"):
                return
            scale = float(mt.group(1))
            labels.append(scale)
            m = depth[i].max()
            if m > 0:
                e = np.log10(scale)
                ctx.ok("depth-scale", abs(e - round(e)) < 1e-6 and 25 < m * scale < 256, lambda: what + ": depth up to %g shown with scale %g" % (m, scale), key=key + "scale")
            looks_like(ctx, "depth-picture", d[1].source, depth[i, k] * scale, what + ": depth picture %d" % k, key + "depth")
    if dep:
        ctx.ok("depth-scale", len(set(labels)) == 1, what + ": frames shown with different depth scales", key=key + "scale")
    if fig:
        # what is visible before the animation starts is the first frame; one slider step per frame
        first = [t.source for t in out.data]
        ctx.ok("first-frame-shown", first == [t.source for t in data(F[0])], what + ": the figure does not open on frame 0", key=key + "first")
        steps = out.layout.sliders[0].steps
        ctx.eq("frame-order", [str(t.args[0][0]) for t in steps], [str(k) for k in range(l)], what + ": slider steps", key=key + "slider")
        ctx.eq("figure-form", out.layout.updatemenus[0].buttons[0].args[1]["frame"]["duration"], ms, "milliseconds per frame", key=key + "ms")
    ctx.state(b, l, dep, fig, cf, unit, empty, over)


def pictures(ctx):
    """the picture encoder itself"""
    from gradslam.structures import structutils as st
    rng = ctx.rng
    h, w = gen.count(rng, 16, 50, 50, 500, .08), gen.count(rng, 16, 50, 50, 500, .08)
    if rng.random() < .05:
        w = h
    grey = bool(rng.random() < .4)
    lo, hi = (20, 235) if rng.random() < .8 else [(0, 9), (0, 60), (200, 255), (245, 255), (90, 92)][int(rng.integers(0, 5))]
    im = np.round(picture(rng, h, w, 1 if grey else 3, lo, hi)).astype(np.uint8)
    if rng.random() < .08:          # one value everywhere: no compression noise at any size
        h, w = int(rng.integers(1, 20)), int(rng.integers(1, 20))
        im = np.broadcast_to(im[:1, :1], (h, w, im.shape[2])).copy()
    im = im[..., 0] if grey else im
    if rng.random() < .3:
        im = np.asfortranarray(im)
    elif rng.random() < .3:
        im = im[::-1]
    keep = im.copy()
    q = int(rng.integers(80, 101))
    ctx.set(size=(h, w), grey=grey, quality=q)
    what = "%s picture of %d x %d" % ("grey" if grey else "colour", h, w)
    looks_like(ctx, "encoded-picture", st.img_to_b64str(im, q) if rng.random() < .5 else st.img_to_b64str(im), im.astype(float), what, "pictures/b64")
    name = None if rng.random() < .3 else str(rng.integers(0, 99))
    scale = None if rng.random() < .5 else float(rng.choice([1, 10, 100, .1, .01, 2.5]))
    out = st.numpy_to_plotly_image(im, name, grey, scale, q)
    looks_like(ctx, "encoded-picture", out.source, im.astype(float), what, "pictures/plotly")
    ctx.eq("figure-form", out.name, name, "picture name", key="pictures/name")
    t = out.hovertemplate
    ctx.ok("figure-form", ("depth" in t) == grey and ("color" in t) == (not grey), "hover text %r of a %s picture" % (t, "depth" if grey else "colour"), key="pictures/hover")
    mt = re.search(r"scale: x([-+0-9.e]+)", t)
    ctx.ok("depth-scale", (mt is None) == (scale is None) and (mt is None or float(mt.group(1)) == scale), "hover text %r with scale %s" % (t, scale), key="pictures/scale")
    ctx.ok("export-leaves-object", np.array_equal(im, keep), "the encoder changed the picture", key="pictures/mutation")
    ctx.state(h, w, grey, scale, q)


CHECK = Check("C25", [Family("clouds", clouds, 250, 4000), Family("frames", frames, 80, 1200), Family("pictures", pictures, 60, 1000)],
              require=["points-of-element", "no-repeats", "own-colour", "own-normal", "colour-picture", "depth-picture", "frame-order", "encoded-picture", "export-leaves-object"],
              rule="one situation per (exporter, attributes, colour range, subset or not, layout) and per frame configuration",
              assumptions=["open3d is not installed: a stand-in records the arrays the exporter hands to it",
                           "8-bit colours may be truncated or rounded; pictures are JPEG coded, smooth pictures are compared within the coding error",
                           "whether colours are in 0..1 or 0..255 is decided per element: 0..1 when none exceeds 1.1"])
