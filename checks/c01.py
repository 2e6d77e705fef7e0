"""C01: all views of a point-cloud batch describe the same data after any history."""
import numpy as np
import torch

from vlib import gen, pcmodel, pcops
from vlib.core import Check, Family, Skip

MON = "view-equals-model"


def history(ctx):
    rng = ctx.rng
    dtype = gen.dt(rng)
    objs = []
    for _ in range(int(rng.integers(1, 3))):
        m = pcmodel.random_model(rng, dtype=dtype, zmin=1.5 if rng.random() < 0.6 else None, big=.03, wide=.08 if dtype == torch.float64 else 0)
        how = "list" if len(set(m.sizes())) > 1 or rng.random() < 0.5 else "padded"
        objs.append((pcmodel.build(m, how), m))
    if rng.random() < 0.25:
        objs.append((pcmodel.build(pcmodel.empty_model(dtype), "list"), pcmodel.empty_model(dtype)))
    ctx.set(sizes=[o[1].sizes() for o in objs], attrs=[o[1].attrs for o in objs], dtype=str(dtype))
    sig = []
    steps = int(rng.integers(3, 14))
    for s in range(steps):
        k = int(rng.integers(0, len(objs)))
        pc, m = objs[k]
        act = rng.choice(["arith", "arith", "index", "clone", "detach", "to", "append", "append", "assign", "assign", "read", "fork"])
        if m.B == 0 and act not in ("clone", "append", "to", "detach", "read"):
            act = "append"
        rt, at = gen.tol(dtype, max(1.0, m.scale()))
        if act == "arith":
            d, out, nm, inplace = pcops.arith(rng, pc, m)
            if inplace:
                objs[k] = (pc, nm)
            else:
                objs[k] = (out, nm) if rng.random() < 0.7 else objs[k]
                if objs[k][0] is pc:
                    objs.append((out, nm))
        elif act == "index":
            d, out, nm = pcops.index(rng, pc, m)
            objs.append((out, nm))
        elif act in ("clone", "detach", "fork"):
            d = "detach" if act == "detach" else "clone"
            out = getattr(pc, d)()
            objs.append((out, m.copy()))
        elif act == "to":
            d = rng.choice(["to(cpu)", "to(cpu,copy)", "cpu"])
            out = pc.cpu() if d == "cpu" else pc.to(torch.device("cpu"), copy=(d == "to(cpu,copy)"))
            if d == "to(cpu,copy)":
                objs.append((out, m.copy()))
            else:
                objs[k] = (out, m)
        elif act == "append":
            cands = [j for j in range(len(objs)) if pcops.compatible(m, objs[j][1])]
            j = int(rng.choice(cands))
            d = "append"
            if rng.random() < 0.5 and m.B:
                om = pcmodel.random_model(rng, B=m.B, dtype=dtype, attrs=m.attrs,
                                          C=m.clouds[0]["features"].shape[1] if "features" in m.attrs else None,
                                          zmin=1.5 if rng.random() < 0.5 else None)
                opc = pcmodel.build(om, "list")
                pcmodel.warm(ctx, opc, om)
            else:
                opc, om = objs[j]
            if opc is pc:
                om = m.copy()
            _, nm = pcops.append(rng, pc, m, opc, om)
            objs[k] = (pc, nm)
        elif act == "assign":
            d, nm, _ = pcops.assign(rng, pc, m)
            objs[k] = (pc, nm)
        else:
            d = "read"
        ctx.log("step", str(s), "obj", str(k), d)
        sig.append(d.split("(")[0])
        ctx.count("op:" + d.split("(")[0])
        # read a random subset of views of a random object: populates caches in random order
        for (pc2, m2) in objs[-2:] + [objs[k]]:
            if rng.random() < 0.6:
                n = int(rng.integers(1, 5))
                rt, at = gen.tol(dtype, max(1.0, m2.scale() if m2.B else 1.0))
                gs = list(rng.choice(pcmodel.GETTERS, n, replace=False))
                if not pcmodel.compare(ctx, MON, pc2, m2, rt, at, "after %s" % "; ".join(sig[-6:]), gs):
                    return
        objs = [o for o in objs if o[1].B == 0 or o[1].scale() < 300][-5:]
        if not objs:
            break
    for pc, m in objs:
        rt, at = gen.tol(dtype, max(1.0, m.scale() if m.B else 1.0))
        if not pcmodel.compare(ctx, MON, pc, m, rt, at, "at end of %s" % "; ".join(sig)):
            return
        if m.B:
            ctx.state(tuple(sorted(m.attrs)), m.B, len(set(m.sizes())) > 1, 0 in m.sizes(), tuple(sig[-3:]))


def construction(ctx):
    """Freshly built batches, every view in random order; padded inputs, zero sizes, one point."""
    rng = ctx.rng
    m = pcmodel.random_model(rng, big=.03, wide=.08)
    eq = len(set(m.sizes())) == 1
    how = "padded" if eq and rng.random() < 0.6 else "list"
    pc = pcmodel.build(m, how)
    ctx.set(sizes=m.sizes(), attrs=m.attrs, how=how)
    rt, at = gen.tol(m.dtype)
    pcmodel.compare(ctx, MON, pc, m, 0, 0, "fresh %s" % how)
    # twice: reading is idempotent
    pcmodel.compare(ctx, MON, pc, m, 0, 0, "second read of fresh %s" % how)
    c = pc.clone()
    pcmodel.compare(ctx, MON, c, m, 0, 0, "clone of fresh %s" % how)
    ctx.state(how, m.attrs, tuple(sorted(set(m.sizes()))))


def assigned(ctx):
    """write, (partially) read, assign, read everything, derive, read everything."""
    rng = ctx.rng
    m = pcmodel.random_model(rng, zmin=1.5, big=.03, wide=.08)
    eq = len(set(m.sizes())) == 1
    pc = pcmodel.build(m, "padded" if eq and rng.random() < 0.5 else "list")
    w = pcmodel.warm(ctx, pc, m)
    seq = []
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < 0.4:
            d, out, m, inplace = pcops.arith(rng, pc, m)
            pc = out
        else:
            d, m, val = pcops.assign(rng, pc, m)
            # the caller's tensor stays the caller's
            if rng.random() < 0.5:
                for t in (val if isinstance(val, list) else [val]):
                    t.mul_(7).add_(1)
        seq.append(d)
        w2 = pcmodel.warm(ctx, pc, m) if rng.random() < 0.7 else ()
    ctx.set(warmed=w, seq=seq, sizes=m.sizes())
    rt, at = gen.tol(m.dtype, m.scale())
    if pcmodel.compare(ctx, MON, pc, m, rt, at, "after " + "; ".join(seq)):
        out = rng.choice(["clone", "index", "append"])
        if out == "clone":
            pcmodel.compare(ctx, MON, pc.clone(), m, rt, at, "clone after " + "; ".join(seq))
        elif out == "index":
            d, o, nm = pcops.index(rng, pc, m)
            pcmodel.compare(ctx, MON, o, nm, rt, at, d + " after " + "; ".join(seq))
        else:
            o = pc.clone()
            _, nm = pcops.append(rng, pc, m, o, m)
            pcmodel.compare(ctx, MON, pc, nm, rt, at, "self-append after " + "; ".join(seq))
        ctx.state(tuple(seq), len(w), out)


def converters(ctx):
    """the list / padded converters the views are built on, on their own: padding, target sizes, and back again"""
    from gradslam.structures import structutils as su
    rng = ctx.rng
    dtype = gen.dt(rng) if rng.random() < .8 else [torch.int64, torch.bool, torch.uint8][int(rng.integers(0, 3))]
    b = int(rng.integers(1, 6))
    n = [0 if rng.random() < .25 else int(rng.integers(1, 7)) for _ in range(b)]
    mixed = rng.random() < .4           # items may also differ in their second size
    c0 = int(rng.integers(1, 5))
    c = [int(rng.integers(1, 5)) if mixed else c0 for _ in range(b)]
    same = len(set(n)) == 1 and len(set(c)) == 1
    if not any(n):
        n[int(rng.integers(0, b))] = 1 + int(rng.integers(0, 3))
        same = len(set(n)) == 1 and len(set(c)) == 1
    for k in range(b):                  # the target size is that of the items that have entries
        if not n[k]:
            c[k] = min(c[k], max(c[j] for j in range(b) if n[j]))
    A = [(rng.normal(size=(i, j)) * 10).astype(np.float64) for i, j in zip(n, c)]
    xs = [torch.tensor(a).to(dtype) for a in A]
    if rng.random() < .4:
        xs = [x.t().contiguous().t() for x in xs]
    keep = [x.clone() for x in xs]
    full = [k for k in range(b) if n[k]]
    size = (max(n[k] for k in full), max(c[k] for k in full))
    ps = None
    if rng.random() < .5:
        ps = tuple(int(s + rng.integers(0, 4)) for s in size)
        size = ps
        ps = list(ps) if rng.random() < .5 else ps
    kw = {} if ps is None else dict(pad_size=ps)
    val = 0.0
    if rng.random() < .5:
        val = float(rng.choice([-1.5, 3.0, float("nan")])) if dtype.is_floating_point else 1
        kw["pad_value"] = val
    if same and ps is None and rng.random() < .5:
        kw["equisized"] = True
    ctx.set(rows=n, columns=c, options={k: str(v) for k, v in kw.items()}, dtype=str(dtype))
    p = su.list_to_padded(xs, **kw)
    want = torch.full((b,) + size, val, dtype=dtype)
    for k, x in enumerate(keep):
        want[k, :x.shape[0], :x.shape[1]] = x if x.shape[0] else want[k, :0, :x.shape[1]]
    eq = lambda u, w: u.shape == w.shape and u.dtype == w.dtype and torch.equal(torch.isnan(u), torch.isnan(w)) and torch.equal(torch.nan_to_num(u), torch.nan_to_num(w))
    ctx.ok("converters", eq(p, want), lambda: "list_to_padded of %s %s gives %s, expected %s" % (n, kw, p.tolist(), want.tolist()), key="converters/list_to_padded")
    ctx.ok("converters", all(eq(u, w) for u, w in zip(xs, keep)), "list_to_padded changed its items", key="converters/items")
    before = p.clone()
    how = int(rng.integers(0, 3))
    split = None if how == 0 else list(n) if how == 1 else [(i, j) for i, j in zip(n, c)]
    if split is not None and rng.random() < .3:
        split = tuple(split)
    if how == 2 and rng.random() < .3:
        split = [list(s) if rng.random() < .5 else n[k] for k, s in enumerate(split)]
    back = su.padded_to_list(p, split) if split is not None or rng.random() < .5 else su.padded_to_list(p)
    ctx.ok("converters", isinstance(back, list) and len(back) == b, "padded_to_list: %d items of %d" % (len(back), b), key="converters/count")
    for k in range(b):
        w = want[k] if split is None else want[k, :n[k]] if isinstance(split[k], int) else want[k, :n[k], :c[k]]
        ctx.ok("converters", eq(back[k], w), lambda: "padded_to_list(%s): item %d is %s, expected %s" % (split, k, back[k].tolist(), w.tolist()), key="converters/padded_to_list")
        if split is not None and not isinstance(split[k], int):
            ctx.ok("converters", eq(back[k], keep[k]), "list -> padded -> list changes item %d" % k, key="converters/round-trip")
    ctx.ok("converters", eq(p, before), "padded_to_list changed its operand", key="converters/operand")
    ctx.state(b, tuple(n), mixed, how, ps is not None)


CHECK = Check("C01", [
    Family("history", history, 500, 12000),
    Family("construction", construction, 150, 3000),
    Family("assigned", assigned, 300, 6000),
    Family("converters", converters, 250, 6000),
], require=[MON, "converters"], rule="case = one random operation history (or construction / assignment chain) on real batches mirrored by a padding-free model; "
   "distinct = (attributes, batch size, raggedness, empty clouds, last operations) signatures whose every public view was compared; the list/padded converters are also called on their own",
   assumptions=["CPU tensors", "float32/float64", "tolerance 2e-4 (float32) / 1e-8 (float64) relative"])
