"""C04: derived RGB-D maps always reflect the current images, intrinsics and poses."""
import numpy as np
import torch

from vlib import gen, rgbdmodel
from vlib.core import Check, Family

MON = "view-equals-current-contents"
DERIVED = ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "valid_depth_mask")


def _assign(rng, o, c):
    """Replace one input through its setter; returns tag and new content (the caller's tensor is kept aside)."""
    what = rng.choice(["depth", "rgb", "intrinsics", "poses", "poses-none"], p=[.35, .1, .25, .25, .05])
    B, L, h, w = c.shape
    n = c.copy()
    f32 = lambda a: a.astype(np.float32).astype(float) if c.dtype == torch.float32 else a
    mv = (lambda a: np.moveaxis(a, -1, 2)) if c.cf else (lambda a: a)
    if what == "depth":
        n.depth = f32(np.stack([np.stack([gen.depth_image(rng, h, w) for _ in range(L)]) for _ in range(B)]))
        o.depth_image = gen.T(mv(n.depth[..., None]), c.dtype)
    elif what == "rgb":
        n.rgb = f32(rng.uniform(0, 1, (B, L, h, w, 3)))
        o.rgb_image = gen.T(mv(n.rgb), c.dtype)
    elif what == "intrinsics":
        n.K = f32(np.stack([gen.intrinsics(rng, h, w)[None] for _ in range(B)]))
        o.intrinsics = gen.T(n.K, c.dtype)
    elif what == "poses":
        n.poses = f32(gen.rigids(rng, (B, L)))
        o.poses = gen.T(n.poses, c.dtype)
    else:
        n.poses = None
        o.poses = None
    return what, n


def history(ctx):
    rng = ctx.rng
    c = rgbdmodel.random_content(rng, big=.03, wide=.15)
    live = [(c.build(), c)]
    ctx.set(shape=c.shape, cf=c.cf, dtype=str(c.dtype), poses=c.poses is not None)
    seq = []
    for _ in range(int(rng.integers(3, 12))):
        k = int(rng.integers(0, len(live)))
        o, c = live[k]
        act = rng.choice(["read", "read", "assign", "assign", "assign", "layout_", "layout_", "layout", "index", "clone", "detach", "to"])
        if act == "read":
            gs = [str(g) for g in rng.choice(DERIVED, int(rng.integers(1, 3)), replace=False)]
            seq.append("read " + "+".join(gs))
            if not rgbdmodel.compare(ctx, MON, o, c, "; ".join(seq[-6:]), gs):
                return
        elif act == "assign":
            w, n = _assign(rng, o, c)
            seq.append("set " + w)
            live[k] = (o, n)
        elif act == "layout_":
            first = bool(rng.random() < .5)
            r = o.to_channels_first_() if first else o.to_channels_last_()
            ctx.ok("in-place-layout-returns-self", r is o, "to_channels_*_ returned another object")
            n = c.copy(); n.cf = first
            seq.append("to_channels_%s_" % ("first" if first else "last"))
            live[k] = (o, n)
        elif act == "layout":
            first, cp = bool(rng.random() < .5), bool(rng.random() < .5)
            r = o.to_channels_first(copy=cp) if first else o.to_channels_last(copy=cp)
            n = c.copy(); n.cf = first
            seq.append("to_channels_%s(copy=%s)" % ("first" if first else "last", cp))
            if cp or c.cf != first:
                ctx.ok("copy-is-another-object", r is not o, seq[-1])
                live.append((r, n))
            else:
                ctx.ok("no-copy-returns-self", r is o, seq[-1])
        elif act == "index":
            e, n, t = rgbdmodel.index(rng, c)
            seq.append("index " + t)
            live.append((o[e], n))
        elif act == "clone":
            seq.append("clone")
            live.append((o.clone(), c.copy()))
        elif act == "detach":
            seq.append("detach")
            live.append((o.detach(), c.copy()))
        else:
            cp = bool(rng.random() < .5)
            r = o.to("cpu" if rng.random() < .5 else torch.device("cpu"), copy=cp)
            seq.append("to(copy=%s)" % cp)
            if cp:
                live.append((r, c.copy()))
            else:
                ctx.ok("no-copy-returns-self", r is o, "to(cpu)")
        ctx.log(seq[-1])
        ctx.count("op:" + seq[-1].split(" ")[0].split("(")[0])
        live = live[-4:]
        if rng.random() < 0.35:
            o, c = live[int(rng.integers(0, len(live)))]
            gs = [str(g) for g in rng.choice(rgbdmodel.GETTERS, 3, replace=False)]
            if not rgbdmodel.compare(ctx, MON, o, c, "; ".join(seq[-6:]), gs):
                return
    for k, (o, c) in enumerate(live):
        if not rgbdmodel.compare(ctx, MON, o, c, "object %d at end of %s" % (k, "; ".join(seq[-8:]))):
            return
        ctx.state(tuple(s.split(" ")[0] for s in seq[-3:]), c.cf, c.poses is not None, c.shape[0], c.shape[1], c.pix is not None)


def stale(ctx):
    """read some maps; change one input or the layout (several times); read maps: the sharpest stale-cache probe."""
    rng = ctx.rng
    c = rgbdmodel.random_content(rng, big=.03, wide=.15)
    o = c.build()
    warmed = [str(g) for g in DERIVED if rng.random() < .6]
    rng.shuffle(warmed)
    for g in warmed:
        getattr(o, g)
    seq = []
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < .55:
            w, c = _assign(rng, o, c)
        else:
            w = "first_" if rng.random() < .5 else "last_"
            (o.to_channels_first_ if w == "first_" else o.to_channels_last_)()
            c = c.copy(); c.cf = w == "first_"
        seq.append(w)
        if rng.random() < .4:
            g = str(rng.choice(DERIVED))
            getattr(o, g)
            seq.append("read " + g)
    ctx.set(warmed=warmed, seq=seq, shape=c.shape)
    if rgbdmodel.compare(ctx, MON, o, c, "read %s; %s" % (warmed, seq)):
        twin = c.build()
        if c.dtype == torch.float64:
            for g in ("vertex_map", "global_vertex_map"):
                ctx.close("equals-fresh-twin", getattr(o, g), getattr(twin, g), 1e-9, 1e-9, g)
        ctx.state(tuple(warmed), tuple(seq))


def independence(ctx):
    """A clone (or copy / layout copy) shares nothing with its original, in either direction."""
    rng = ctx.rng
    c = rgbdmodel.random_content(rng, big=.03, wide=.15)
    c.grad = False          # the contents are written over in place below
    o = c.build()
    for g in DERIVED:
        if rng.random() < .5:
            getattr(o, g)
    kind = rng.choice(["clone", "to-copy", "first-copy", "last-copy"])
    n = c.copy()
    if kind == "clone":
        r = o.clone()
    elif kind == "to-copy":
        r = o.to("cpu", copy=True)
    else:
        r = o.to_channels_first(copy=True) if kind == "first-copy" else o.to_channels_last(copy=True)
        n.cf = kind == "first-copy"
    ts = lambda x: [x.rgb_image, x.depth_image, x.intrinsics, x.poses, x.pixel_pos] + [getattr(x, g) for g in DERIVED]
    if rng.random() < .5:
        a, ca, b, cb = o, c, r, n
    else:
        a, ca, b, cb = r, n, o, c
    how = rng.choice(["write-through", "assign", "layout"])
    ctx.set(kind=kind, how=how, shape=c.shape)
    if how == "write-through":
        sh = gen.storage_ptrs(*ts(a)) & gen.storage_ptrs(*ts(b))
        ctx.ok("clone-shares-no-memory", not sh, "%s shares %d storages with its original" % (kind, len(sh)))
        for t in ts(a):
            if t is not None:
                t.fill_(1)
    elif how == "assign":
        for _ in range(3):
            _, ca = _assign(rng, a, ca)
    else:
        a.to_channels_first_() if not ca.cf else a.to_channels_last_()
    rgbdmodel.compare(ctx, "clone-independent", b, cb, "%s of the other object of a %s pair" % (how, kind))
    ctx.state(kind, how, a is o, c.cf)


def layout(ctx):
    """Layout conversion permutes exactly: round trips are bit-identical for every view."""
    rng = ctx.rng
    c = rgbdmodel.random_content(rng, big=.03, wide=.15)
    o = c.build()
    order = [g for g in rgbdmodel.GETTERS if g not in ("shape", "len", "layout", "has_poses")]
    rng.shuffle(order)
    before = {g: getattr(o, g) for g in order}
    before = {g: None if t is None else t.clone() for g, t in before.items()}
    p = o.to_channels_first() if not c.cf else o.to_channels_last()
    for g in before:
        t, u = before[g], getattr(p, g)
        if t is None:
            ctx.ok("layout-permutes", u is None, g)
        elif g in ("intrinsics", "poses"):
            ctx.ok("layout-permutes", gen.same(t, u), g)
        else:
            perm = (0, 1, 3, 4, 2) if c.cf else (0, 1, 4, 2, 3)
            ctx.ok("layout-permutes", tuple(u.shape) == tuple(t.permute(*perm).shape) and gen.same(t.permute(*perm), u), "%s is not a pure permutation" % g)
    q = p.to_channels_first() if c.cf else p.to_channels_last()
    for g in before:
        ctx.ok("layout-round-trip", before[g] is None or gen.same(before[g], getattr(q, g)), g)
    ctx.set(shape=c.shape, cf=c.cf)
    ctx.state(c.shape, c.cf)


def rejected_set(ctx):
    """A refused assignment leaves every view as it was."""
    rng = ctx.rng
    c = rgbdmodel.random_content(rng, big=.03, wide=.15)
    o = c.build()
    for g in DERIVED:
        if rng.random() < .5:
            getattr(o, g)
    attr = str(rng.choice(["rgb_image", "depth_image", "intrinsics", "poses"]))
    cur = getattr(o, attr)
    cur = torch.zeros(*c.shape[:2], 4, 4) if cur is None else cur
    kind = rng.choice(["type", "rank", "size", "batch"])
    if kind == "type":
        bad = cur.detach().numpy() if rng.random() < .5 else [1]
    elif kind == "rank":
        bad = cur.unsqueeze(0) if rng.random() < .5 else cur[0]
    elif kind == "size":
        bad = torch.cat([cur, cur], int(rng.integers(1, cur.ndim)))
    else:
        bad = torch.cat([cur, cur], 0)
    ctx.set(attr=attr, kind=kind)
    ctx.raises("bad-set-rejected", (TypeError, ValueError), lambda: setattr(o, attr, bad), "%s = wrong %s" % (attr, kind))
    rgbdmodel.compare(ctx, MON, o, c, "after rejected %s (%s)" % (attr, kind))
    ctx.state(attr, kind, c.cf)


CHECK = Check("C04", [
    Family("history", history, 350, 8000),
    Family("stale", stale, 500, 10000),
    Family("independence", independence, 200, 3000),
    Family("layout", layout, 100, 2000),
    Family("rejected_set", rejected_set, 100, 2000),
], require=[MON, "clone-independent", "layout-permutes", "bad-set-rejected", "equals-fresh-twin"],
    rule="case = one history of assignments, layout switches, indexing, cloning and reads; every view compared with a numpy camera model of the current contents; "
    "distinct = (last operations, layout, poses, batch/sequence size) or (maps read before, assignments)",
    assumptions=["normals compared where the two forward differences are well conditioned (angle > ~1 degree)", "CPU"])
