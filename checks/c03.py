"""C03: appending, indexing and copying lose, mix or share nothing."""
import numpy as np
import torch

from vlib import gen, pcmodel, pcops
from vlib.core import Check, Family

ATTRS = pcmodel.ATTRS


def tagged(rng, base, B=None, dtype=torch.float64, attrs=None, C=None, sizes=None):
    """A model whose every row carries a globally unique tag in every attribute."""
    m = pcmodel.random_model(rng, B=B, dtype=dtype, attrs=attrs, C=C, sizes=sizes, big=.03, wide=.08)
    t = base
    for c in m.clouds:
        n = len(c["points"])
        ids = np.arange(t, t + n, dtype=float)
        for a in m.attrs:
            w = c[a].shape[1]
            c[a] = ids[:, None] + np.arange(w) * 0.25 + {"points": 0, "normals": .03125, "colors": .0625, "features": .125}[a]
        t += n
    return m, t


def _how(rng, m):
    return "padded" if len(set(m.sizes())) == 1 and rng.random() < 0.5 else "list"


def _exact(ctx, mon, pc, m, msg):
    return pcmodel.compare(ctx, mon, pc, m, 0, 0, msg)


def _tags(pc):
    return [tuple(np.floor(p[:, 0].detach().double().numpy()).astype(int)) if len(p) else () for p in pc.points_list]


def history(ctx):
    """append / index / clone / to(copy) over several live batches with uniquely tagged rows."""
    rng = ctx.rng
    B = int(rng.integers(1, 5))
    attrs = ["points"] + [a for a in ATTRS[1:] if rng.random() < 0.6]
    C = int(rng.integers(1, 4))
    dtype = torch.float64 if rng.random() < .7 else torch.float32
    base, live = 0, []
    for _ in range(int(rng.integers(2, 5))):
        m, base = tagged(rng, base, B, dtype, attrs, C)
        live.append((pcmodel.build(m, _how(rng, m)), m))
    if rng.random() < 0.5:
        from gradslam.structures.pointclouds import Pointclouds
        live.append((Pointclouds(), pcmodel.empty_model(dtype)))
    seq = []
    for _ in range(int(rng.integers(3, 12))):
        k = int(rng.integers(0, len(live)))
        pc, m = live[k]
        if rng.random() < 0.3:
            pcmodel.warm(ctx, pc, m)
        act = rng.choice(["append", "append", "append", "index", "clone", "copy", "touch"])
        if act == "append":
            cands = [j for j in range(len(live)) if pcops.compatible(m, live[j][1])]
            j = int(rng.choice(cands))
            opc, om = live[j]
            om = om.copy()
            out, nm = pcops.append(rng, pc, m, opc, om)
            ctx.ok("append-returns-self", out is pc, "append_points returned another object")
            live[k] = (pc, nm)
            seq.append("append %d<-%d" % (k, j))
            _exact(ctx, "append-conserves", pc, nm, "; ".join(seq[-5:]))
            if j != k:
                _exact(ctx, "appended-batch-unchanged", opc, om, "; ".join(seq[-5:]))
                if rng.random() < 0.5:
                    sh = gen.storage_ptrs(*pcmodel.tensors_of(pc)) & gen.storage_ptrs(*pcmodel.tensors_of(opc))
                    ctx.ok("append-shares-no-memory", not sh or m.B == 0 and om.B == 0, "the result shares %d storages with the appended batch (%s)" % (len(sh), seq[-1]))
            if sum(nm.sizes()) > 400:
                break
        elif act == "index":
            if not m.B:
                continue
            d, out, nm = pcops.index(rng, pc, m)
            seq.append("%s of %d" % (d, k))
            if ctx.ok("index-selects", _tags(out) == [tuple(np.floor(c["points"][:, 0]).astype(int)) for c in nm.clouds], "%s: wrong clouds" % d):
                _exact(ctx, "index-selects", out, nm, seq[-1])
            live.append((out, nm))
        elif act in ("clone", "copy"):
            out = pc.clone() if act == "clone" else pc.to(torch.device("cpu"), copy=True)
            seq.append("%s %d" % (act, k))
            live.append((out, m.copy()))
            _exact(ctx, "clone-equal", out, m, seq[-1])
            if m.B:
                sh = gen.storage_ptrs(*pcmodel.tensors_of(pc)) & gen.storage_ptrs(*pcmodel.tensors_of(out))
                ctx.ok("clone-shares-no-memory", not sh, "%s shares %d storages with the original" % (act, len(sh)))
        else:
            d, nm, _ = pcops.assign(rng, pc, m, allow_new=False) if m.B else ("", m, None)
            if m.B and "features" in m.attrs and nm.clouds[0]["features"].shape[1] != C:
                pass
            live[k] = (pc, nm)
            seq.append("%s on %d" % (d, k))
        live = live[-6:]
    ctx.set(attrs=attrs, seq=seq, sizes=[m.sizes() for _, m in live])
    for k, (pc, m) in enumerate(live):
        _exact(ctx, "history-conserves", pc, m, "object %d at the end of %s" % (k, "; ".join(seq)))
    ctx.state(tuple(attrs), B, tuple(s.split(" ")[0] for s in seq[-4:]))


def independence(ctx):
    """Write through every tensor one object hands out; nothing may show in the other."""
    rng = ctx.rng
    kind = rng.choice(["clone", "clone-warm", "append", "append-empty", "clone-assigned", "to-copy", "append-assigned"])
    dtype = gen.dt(rng)
    m, base = tagged(rng, 0, dtype=dtype)
    pc = pcmodel.build(m, _how(rng, m))
    if kind in ("clone-warm", "append") or rng.random() < .3:
        pcmodel.warm(ctx, pc, m)
    if "assigned" in kind:
        _, m, _ = pcops.assign(rng, pc, m, allow_new=rng.random() < .3)
    if kind.startswith("clone"):
        a, ma, b, mb = pc, m, pc.clone(), m.copy()
    elif kind == "to-copy":
        a, ma, b, mb = pc, m, pc.to("cpu", copy=True), m.copy()
    elif kind == "append-empty":
        from gradslam.structures.pointclouds import Pointclouds
        b = Pointclouds()
        b.append_points(pc)
        a, ma, mb = pc, m, m.copy()
    else:
        C = m.clouds[0]["features"].shape[1] if "features" in m.attrs else None
        if rng.random() < .4:   # some clouds of the receiver empty: their result is the appended part alone
            sizes = [0 if rng.random() < .6 else int(rng.integers(1, 4)) for _ in range(m.B)]
        else:
            sizes = None
        mb, base = tagged(rng, base, B=m.B, dtype=dtype, attrs=m.attrs, C=C, sizes=sizes)
        b = pcmodel.build(mb, "list")
        _, mb = pcops.append(rng, b, mb, pc, m)
        a, ma = pc, m
    ctx.set(kind=kind, sizes=m.sizes(), attrs=m.attrs)
    if rng.random() < 0.5:
        a, ma, b, mb = b, mb, a, ma
    mode = rng.choice(["write-through", "in-place-ops", "assign"])
    with torch.no_grad():
        if mode == "write-through":
            for t in pcmodel.tensors_of(a) + [a.num_points_per_pointcloud, a.nonpad_mask]:
                if t.numel():
                    t.fill_(0 if t.dtype == torch.bool else 1)
        elif mode == "in-place-ops":
            for op in ("add", "mul", "tf", "rot"):
                _, _, ma, _ = pcops.arith(rng, a, ma, inplace=True, op=op)
        else:
            for _ in range(3):
                _, ma, _ = pcops.assign(rng, a, ma)
    _exact(ctx, "independent-after-write", b, mb, "%s of the other object of a %s pair" % (mode, kind))
    ctx.state(kind, mode, m.attrs, 0 in m.sizes())


def rejection(ctx):
    """Incompatible appends are refused and change nothing."""
    rng = ctx.rng
    m, base = tagged(rng, 0)
    C = m.clouds[0]["features"].shape[1] if "features" in m.attrs else None
    pc = pcmodel.build(m, _how(rng, m))
    pcmodel.warm(ctx, pc, m)
    kind = rng.choice(["batch", "attrs", "features", "type"])
    om = None
    if kind == "type":
        bad = [None, [1, 2], torch.rand(1, 3, 3), "x", 3, {}][int(rng.integers(0, 6))]
    else:
        if kind == "batch":
            om, base = tagged(rng, base, B=m.B + int(rng.choice([1, 2])), dtype=m.dtype, attrs=m.attrs, C=C)
        elif kind == "attrs":
            flip = [a for a in ATTRS[1:] if rng.random() < .5] or ["colors"]
            attrs = ["points"] + [a for a in ATTRS[1:] if (a in m.attrs) != (a in flip)]
            om, base = tagged(rng, base, B=m.B, dtype=m.dtype, attrs=attrs, C=C)
        else:
            if "features" not in m.attrs:
                m, base = tagged(rng, base, attrs=list(m.attrs) + ["features"], dtype=m.dtype)
                C = m.clouds[0]["features"].shape[1]
                pc = pcmodel.build(m, _how(rng, m))
            om, base = tagged(rng, base, B=m.B, dtype=m.dtype, attrs=m.attrs, C=C + 1)
        bad = pcmodel.build(om, _how(rng, om))
        pcmodel.warm(ctx, bad, om)
    ctx.set(kind=kind, sizes=m.sizes(), attrs=m.attrs)
    ctx.raises("append-rejects", (TypeError, ValueError), lambda: pc.append_points(bad), "append of incompatible %s" % kind)
    _exact(ctx, "rejected-append-changes-nothing", pc, m, "receiver after rejected append (%s)" % kind)
    if om is not None:
        _exact(ctx, "rejected-append-changes-nothing", bad, om, "argument after rejected append (%s)" % kind)
    ok, _ = tagged(rng, base, B=m.B, dtype=m.dtype, attrs=m.attrs, C=C)
    _, nm = pcops.append(rng, pc, m, pcmodel.build(ok, "list"), ok)
    _exact(ctx, "append-conserves", pc, nm, "valid append after rejected one")
    ctx.state(kind, m.attrs)


def detaching(ctx):
    """detach(): equal contents, later in-place operations on either leave the other's contents alone."""
    rng = ctx.rng
    m = pcmodel.random_model(rng, big=.04, wide=.08)
    pc = pcmodel.build(m, _how(rng, m))
    pcmodel.warm(ctx, pc, m)
    out = pc.detach()
    _exact(ctx, "detach-equal", out, m, "detach")
    ops = [str(o) for o in rng.choice(["add", "mul", "tf", "rot"], 2)]
    a, b = (pc, out) if rng.random() < .5 else (out, pc)
    ma = m
    for op in ops:
        _, _, ma, _ = pcops.arith(rng, a, ma, inplace=True, op=op)
    o, _ = tagged(rng, 1000, B=m.B, dtype=m.dtype, attrs=m.attrs, C=m.clouds[0]["features"].shape[1] if "features" in m.attrs else None)
    pcops.append(rng, a, ma, pcmodel.build(o, "list"), o)
    _exact(ctx, "detach-equal", b, m, "other object after %s and append" % ops)
    ctx.set(sizes=m.sizes(), ops=ops)
    ctx.state(tuple(ops), m.attrs)


def bad_index(ctx):
    rng = ctx.rng
    m, _ = tagged(rng, 0)
    pc = pcmodel.build(m, _how(rng, m))
    bad = [m.B, -m.B - 1, [0, m.B], torch.tensor([m.B]), "a", 1.5, torch.tensor([0.0]), torch.zeros(1, 1, dtype=torch.int64), None][int(rng.integers(0, 9))]
    ctx.set(bad=bad, B=m.B)
    ctx.raises("bad-index-rejected", (IndexError, TypeError), lambda: pc[bad], "index %r on %d clouds" % (bad, m.B))
    _exact(ctx, "index-selects", pc, m, "after rejected index")
    ctx.state(repr(bad), m.B)


CHECK = Check("C03", [
    Family("history", history, 400, 9000),
    Family("independence", independence, 400, 9000),
    Family("rejection", rejection, 200, 3000),
    Family("detaching", detaching, 100, 2000),
    Family("bad_index", bad_index, 60, 600),
], require=["append-conserves", "appended-batch-unchanged", "index-selects", "clone-equal", "clone-shares-no-memory", "append-shares-no-memory",
            "independent-after-write", "rejected-append-changes-nothing"],
    rule="case = one history of append/index/clone over live batches whose rows are uniquely tagged (conservation checked exactly), or one pair of objects written through; "
    "distinct = (attributes, batch size, last operations) or (pair kind, write mode, attributes, empty clouds)",
    assumptions=["indexing is documented not to copy, so sharing between a batch and a selection of it is not claimed"])
