"""C02: arithmetic and rigid motion act on exactly the real points."""
import copy

import numpy as np
import torch

from vlib import gen, pcmodel, pcops
from vlib.core import Check, Family

OPS = ["add", "sub", "mul", "div", "rot", "rotpost", "tf", "tfpost", "matmul3", "matmul4", "pinhole"]
HAS_INPLACE = {"add", "mul", "rot", "rotpost", "tf", "tfpost", "pinhole"}


def _make(ctx, rng, m):
    eq = len(set(m.sizes())) == 1
    pc = pcmodel.build(m, "padded" if eq and rng.random() < 0.5 else "list")
    # leave the object in a random cache state reached through public calls
    k = rng.choice(["fresh", "warm", "clone", "index", "assigned", "appended"])
    if k == "warm":
        pcmodel.warm(ctx, pc, m)
    elif k == "clone":
        pcmodel.warm(ctx, pc, m)
        pc = pc.clone()
    elif k == "index":
        perm = [int(v) for v in rng.permutation(m.B)]
        pc = pc[perm]
        m = m.copy()
        m.clouds = [m.clouds[i] for i in perm]
    elif k == "assigned":
        _, m, _ = pcops.assign(rng, pc, m, allow_new=False)
        if any(c["points"].size and np.abs(c["points"][:, 2]).min() < .25 for c in m.clouds):
            pass
    elif k == "appended" and m.B:
        cut = [int(rng.integers(0, n + 1)) for n in m.sizes()]
        a, b = m.copy(), m.copy()
        a.clouds = [{k2: v[:c] for k2, v in cl.items()} for cl, c in zip(m.clouds, cut)]
        b.clouds = [{k2: v[c:] for k2, v in cl.items()} for cl, c in zip(m.clouds, cut)]
        pc = pcmodel.build(a, "list")
        pcmodel.warm(ctx, pc, a)
        pc.append_points(pcmodel.build(b, "list"))
    return pc, m, k


def forms(ctx):
    """One operation on one object: both forms, the operand, and the untouched attributes."""
    rng = ctx.rng
    op = OPS[ctx.index % len(OPS)]
    m0 = pcmodel.random_model(rng, zmin=1.5 if op == "pinhole" or rng.random() < 0.3 else None, big=.04, wide=.12)
    pc, m, how = _make(ctx, rng, m0)
    twin = pc.clone()
    rt, at = gen.tol(m.dtype, max(1.0, m.scale()))
    if not pcmodel.compare(ctx, "setup-coherent", twin, m, rt, at, "clone of the operand (%s)" % how):
        return
    if rng.random() < 0.5:
        pcmodel.warm(ctx, pc, m)
    r1, r2 = copy.deepcopy(rng), copy.deepcopy(rng)
    d, out, nm, _ = pcops.arith(r1, pc, m, inplace=False, op=op, wide=True)
    ctx.set(op=d, sizes=m.sizes(), attrs=m.attrs, state=how, dtype=str(m.dtype))
    x, xb = pcops.LAST["operand"], pcops.LAST["before"]
    if x is not None:
        ctx.ok("operand-tensor-unchanged", torch.equal(x, xb), "%s changed its tensor operand" % d)
    ctx.ok("out-of-place-returns-new-object", out is not pc, "%s returned its operand" % d)
    s2 = max(m.scale(), nm.scale(), pcops.LAST["scale"])
    dt = torch.float32 if "'" in d else m.dtype
    rt, at = (1e-5, 1e-5 * max(1.0, s2)) if dt == torch.float32 else (1e-10, 1e-10 * max(1.0, s2))
    # the operand first: reading it must not be confused by the result, and vice versa
    order = [("out-of-place-result", out, nm), ("operand-unchanged", pc, m)]
    if rng.random() < 0.5:
        order.reverse()
    for mon, o, mm in order:
        pcmodel.compare(ctx, mon, o, mm, rt, at, "%s on %s batch" % (d, how))
    if op in HAS_INPLACE:
        d2, out2, nm2, _ = pcops.arith(r2, twin, m, inplace=True, op=op, wide=True)
        ctx.ok("in-place-returns-self", out2 is twin, "%s did not return self" % d2)
        x, xb = pcops.LAST["operand"], pcops.LAST["before"]
        if x is not None:
            ctx.ok("operand-tensor-unchanged", torch.equal(x, xb), "%s changed its tensor operand" % d2)
        pcmodel.compare(ctx, "in-place-result", twin, nm2, rt, at, "%s on clone" % d2)
        # both forms produce the same numbers, not merely close ones
        for a in m.attrs:
            ctx.close("forms-agree", getattr(twin, a + "_padded"), getattr(out, a + "_padded"), 1e-6 if dt == torch.float32 else 1e-12,
                      1e-6 * max(1, s2), "%s vs %s: %s" % (d, d2, a))
    # attributes the operation does not touch keep their exact values
    touched = {"points"} if d.split("(")[0].rstrip("_") in ("add", "sub", "mul", "div", "pinhole") else {"points", "normals"}
    for a in m.attrs:
        if a not in touched:
            for b in range(m.B):
                ctx.close("other-attributes-exact", getattr(out, a + "_list")[b], m.clouds[b][a], 0, 0, "%s: %s[%d]" % (d, a, b))
    ctx.state(d, how, m.attrs, len(set(m.sizes())) > 1, 0 in m.sizes(), str(m.dtype))
    ctx.count("op:" + d)


def chain(ctx):
    """Chains of out-of-place and in-place operations; every intermediate object stays right."""
    rng = ctx.rng
    m = pcmodel.random_model(rng, zmin=2 if rng.random() < 0.4 else None, big=.04)
    pc, m, how = _make(ctx, rng, m)
    live = [(pc, m)]
    seq = []
    for _ in range(int(rng.integers(2, 7))):
        k = int(rng.integers(0, len(live)))
        p, mm = live[k]
        if rng.random() < 0.4:
            pcmodel.warm(ctx, p, mm)
        d, out, nm, inplace = pcops.arith(rng, p, mm)
        seq.append("%d:%s" % (k, d))
        if inplace:
            ctx.ok("in-place-returns-self", out is p, d)
            live[k] = (p, nm)
        else:
            live.append((out, nm))
        if live[-1][1].scale() > 300 or live[k][1].scale() > 300:
            break
    ctx.set(seq=seq, sizes=m.sizes(), state=how)
    for k, (p, mm) in enumerate(live):
        rt, at = gen.tol(mm.dtype, max(1.0, mm.scale()) * 3)
        pcmodel.compare(ctx, "chain-result", p, mm, rt, at, "object %d after %s" % (k, "; ".join(seq)))
    ctx.state(tuple(s.split("(")[0] for s in seq))


def own_cloud(ctx):
    """Per-cloud matrices and offsets act on their own cloud only: changing cloud j's operand
    changes cloud j's points and no other cloud's, bit for bit."""
    rng = ctx.rng
    m = pcmodel.random_model(rng, B=gen.count(rng, 2, 5, 6, 12), big=.04, wide=.1)
    pc, m, how = _make(ctx, rng, m)
    j = int(rng.integers(0, m.B))
    kind = rng.choice(["rotate", "transform", "offset", "scale"])
    if kind == "rotate":
        X = np.stack([gen.rotation(rng) for _ in range(m.B)]); Y = X.copy(); Y[j] = gen.rotation(rng)
        f = lambda t: pc.rotate(t)
    elif kind == "transform":
        X = np.stack([gen.rigid(rng) for _ in range(m.B)]); Y = X.copy(); Y[j] = gen.rigid(rng)
        f = lambda t: pc.transform(t)
    else:
        X = rng.uniform(.5, 2, (m.B, 1, 3)); Y = X.copy(); Y[j] = rng.uniform(.5, 2, (1, 3))
        f = (lambda t: pc + t) if kind == "offset" else (lambda t: pc * t)
    a, b = f(torch.tensor(X, dtype=m.dtype)), f(torch.tensor(Y, dtype=m.dtype))
    ctx.set(kind=kind, sizes=m.sizes(), j=j)
    for i in range(m.B):
        if i == j:
            if len(m.clouds[i]["points"]):
                ctx.ok("own-operand-acts", not torch.equal(a.points_list[i], b.points_list[i]), "cloud %d ignores its operand" % i)
        else:
            ctx.close("other-clouds-unaffected", a.points_list[i], b.points_list[i], 0, 0, "%s: cloud %d changed with the operand of %d" % (kind, i, j))
            if "normals" in m.attrs:
                ctx.close("other-clouds-unaffected", a.normals_list[i], b.normals_list[i], 0, 0, "normals")
    ctx.state(kind, tuple(m.sizes()), j)


CHECK = Check("C02", [
    Family("forms", forms, 800, 16000),
    Family("chain", chain, 300, 6000),
    Family("own_cloud", own_cloud, 200, 3000),
], require=["out-of-place-result", "operand-unchanged", "in-place-result", "forms-agree", "chain-result", "other-clouds-unaffected"],
    rule="case = one operation (or chain) on a batch in a random cache state, both forms, all views of operand and result compared with the padding-free model; "
    "distinct = (operation and operand form, cache state, attributes, raggedness, dtype)",
    assumptions=["pinhole projection is exercised away from zero depth (C07 covers zero depth)", "CPU"])
