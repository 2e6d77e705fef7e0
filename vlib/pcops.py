"""Random operations on point-cloud batches: each applies the same operation to the real
object and to the model.  Returned: description, result object, result model, in-place?"""
import numpy as np
import torch

from . import gen
from .pcmodel import ATTRS

LAST = {"operand": None, "before": None, "scale": 1.0}      # tensor operand handed to the last arith() call


def _note(t):
    LAST["operand"], LAST["before"] = (t, t.clone()) if torch.is_tensor(t) else (None, None)


def _operand(rng, model, kind_range, wide=False, zero=False):
    """A scalar or tensor operand compatible with (B, N, 3): returns (operand, f(b)->array broadcastable to (N_b,3), tag).
    wide: of any magnitude, and of another dtype than the points' now and then; zero: zero is allowed"""
    lo, hi = kind_range
    B, N = model.B, max(model.sizes())
    k = rng.choice(["float", "int", "0d", "3", "113", "B13", "BN3", "B11", "1N1"] + (["13", "N3", "N1", "BN1", "1", "11"] if wide else []))
    mag = 10 ** rng.uniform(-3, 4) if wide and rng.random() < .4 else 1
    if zero and rng.random() < .05:
        mag = 0
    LAST["scale"] = max(1.0, hi * mag)
    u = lambda *s: mag * rng.uniform(lo, hi, s) * (np.where(rng.random(s) < 0.3, -1, 1) if s else (1 if rng.random() < .7 else -1))
    if k == "float":
        v = float(u()) if wide else float(np.round(u(), 3))
        return v, (lambda b: np.full((1, 3), v)), k
    if k == "int":
        v = int(rng.integers(1, 4 if mag <= 1 else 2 + int(mag))) * (1 if rng.random() < .7 else -1)
        LAST["scale"] = max(1.0, abs(v))
        return v, (lambda b: np.full((1, 3), float(v))), k
    shp = {"0d": (), "3": (3,), "113": (1, 1, 3), "B13": (B, 1, 3), "BN3": (B, N, 3), "B11": (B, 1, 1), "1N1": (1, N, 1),
           "13": (1, 3), "N3": (N, 3), "N1": (N, 1), "BN1": (B, N, 1), "1": (1,), "11": (1, 1)}[k]
    a = np.asarray(u(*shp), dtype=np.float64)
    dt = model.dtype
    if wide and rng.random() < .1:
        dt = torch.float32 if dt == torch.float64 else torch.float64
        k += "'"
    t = torch.tensor(a, dtype=dt)
    a = t.double().numpy()
    full = np.broadcast_to(a, (B, N, 3)) if N else np.zeros((B, 0, 3))
    return t, (lambda b: full[b, :len(model.clouds[b]["points"])]), k


def _map_points(model, f, normals=None):
    m = model.copy()
    for b, c in enumerate(m.clouds):
        c["points"] = f(b, c["points"])
        if normals is not None and "normals" in c:
            c["normals"] = normals(b, c["normals"])
    return m


def arith(rng, pc, model, inplace=None, op=None, wide=False):
    LAST["scale"] = 1.0
    op = op or rng.choice(["add", "sub", "mul", "div", "rot", "rotpost", "tf", "tfpost", "matmul3", "matmul4", "pinhole"])
    inplace = bool(rng.random() < 0.5) if inplace is None else inplace
    if op in ("add", "sub", "mul", "div"):
        x, f, tag = _operand(rng, model, (0.4, 1.9), wide, op != "div")
        _note(x)
        if op == "add":
            out = pc.offset_(x) if inplace else pc + x
            m = _map_points(model, lambda b, p: p + f(b))
        elif op == "sub":
            inplace = False
            out = pc - x
            m = _map_points(model, lambda b, p: p - f(b))
        elif op == "mul":
            out = pc.scale_(x) if inplace else pc * x
            m = _map_points(model, lambda b, p: p * f(b))
        else:
            inplace = False
            out = pc / x
            m = _map_points(model, lambda b, p: p / f(b))
        return "%s%s(%s)" % (op, "_" if inplace else "", tag), out, m, inplace
    batch = rng.random() < 0.6
    if op in ("rot", "rotpost", "matmul3"):
        R = np.stack([gen.rotation(rng) for _ in range(model.B if batch else 1)])
        if rng.random() < 0.15:
            R = np.stack([np.eye(3)] * len(R))
        t = torch.tensor(R if batch else R[0], dtype=model.dtype)
        R = t.double().numpy().reshape(-1, 3, 3)
        Rb = lambda b: R[b if batch else 0]
        if rng.random() < 0.3:
            t = t.transpose(-1, -2).contiguous().transpose(-1, -2)
        _note(t)
        if op == "rot":
            out = pc.rotate_(t) if inplace else pc.rotate(t)
            g = lambda b, p: p @ Rb(b).T
        elif op == "rotpost":
            out = pc.rotate_(t, pre_multiplication=False) if inplace else pc.rotate(t, pre_multiplication=False)
            g = lambda b, p: p @ Rb(b)
        else:
            inplace = False
            out = pc @ t
            g = lambda b, p: p @ Rb(b)
        return "%s%s(%s)" % (op, "_" if inplace else "", "B" if batch else "1"), out, _map_points(model, g, g), inplace
    if op in ("tf", "tfpost", "matmul4"):
        M = np.stack([gen.rigid(rng) for _ in range(model.B if batch else 1)])
        if wide and rng.random() < .2:
            M[:, :3, 3] *= 10 ** rng.uniform(-3, 4)
        LAST["scale"] = max(1.0, np.abs(M[:, :3, 3]).max())
        t = torch.tensor(M if batch else M[0], dtype=model.dtype)
        _note(t)
        M = t.double().numpy().reshape(-1, 4, 4)
        Rb = lambda b: M[b if batch else 0][:3, :3]
        tb = lambda b: M[b if batch else 0][:3, 3]
        if op == "tf":
            out = pc.transform_(t) if inplace else pc.transform(t)
            g = lambda b, p: p @ Rb(b).T + tb(b)
            gn = lambda b, n: n @ Rb(b).T
        else:
            if op == "matmul4":
                inplace = False
                out = pc @ t
            else:
                out = pc.transform_(t, pre_multiplication=False) if inplace else pc.transform(t, pre_multiplication=False)
            g = lambda b, p: p @ Rb(b) + tb(b)
            gn = lambda b, n: n @ Rb(b)
        return "%s%s(%s)" % (op, "_" if inplace else "", "B" if batch else "1"), out, _map_points(model, g, gn), inplace
    # pinhole projection: only where the depth is safely away from the zero-depth special case
    if any(np.abs(c["points"][:, 2]).min(initial=1.0) < 0.25 for c in model.clouds):
        return arith(rng, pc, model, inplace, "tf")
    K = np.stack([gen.intrinsics(rng, 3, 4) for _ in range(model.B if batch else 1)])
    if wide and rng.random() < .3:
        K = np.stack([gen.unusual_camera(rng, k, *[int(v) for v in rng.integers(1, 700, 2)]) for k in K])
    t = torch.tensor(K if batch else K[0], dtype=model.dtype)
    _note(t)
    K = t.double().numpy().reshape(-1, 4, 4)

    def proj(b, p):
        k = K[b if batch else 0]
        q = p @ k[:3, :3].T
        return np.concatenate([q[:, :2] / q[:, 2:], np.ones((len(p), 1))], -1)
    out = pc.pinhole_projection_(t) if inplace else pc.pinhole_projection(t)
    return "pinhole%s(%s)" % ("_" if inplace else "", "B" if batch else "1"), out, _map_points(model, proj), inplace


def index(rng, pc, model):
    B = model.B
    k = rng.choice(["int", "neg", "slice", "step", "list", "intT", "boolT"])
    if k == "int":
        i = int(rng.integers(0, B)); sel = [i]; ix = i
    elif k == "neg":
        i = int(rng.integers(0, B)); sel = [i]; ix = i - B
    elif k in ("slice", "step"):
        a = int(rng.integers(0, B)); e = int(rng.integers(a + 1, B + 1)); st = 2 if k == "step" else None
        ix = slice(a, e, st); sel = list(range(B))[ix]
    elif k == "list":
        sel = [int(v) for v in rng.integers(0, B, int(rng.integers(1, B + 2)))]; ix = list(sel)
        if rng.random() < 0.3:
            ix = [i - B if rng.random() < .5 else i for i in sel]
    elif k == "intT":
        sel = [int(v) for v in rng.integers(0, B, int(rng.integers(1, B + 2)))]
        ix = torch.tensor(sel, dtype=[torch.int64, torch.int32][int(rng.integers(0, 2))])
    else:
        mask = rng.random(B) < 0.6
        mask[int(rng.integers(0, B))] = True
        sel = [i for i in range(B) if mask[i]]; ix = torch.tensor(mask)
    out = pc[ix]
    m = model.copy()
    m.clouds = [{a: v.copy() for a, v in model.clouds[i].items()} for i in sel]
    return "index(%s)" % k, out, m


def assign(rng, pc, model, allow_new=True):
    """Assign one attribute through its list or padded setter."""
    attr = str(rng.choice(ATTRS))
    if attr not in model.attrs and not allow_new:
        attr = "points"
    rep = str(rng.choice(["list", "padded"]))
    m = model.copy()
    C = 3
    if attr == "features":
        C = int(rng.integers(1, 5)) if rng.random() < 0.5 or "features" not in model.attrs else model.clouds[0]["features"].shape[1]
    for c in m.clouds:
        v = rng.uniform(-2, 2, (len(c["points"]), C))
        c[attr] = torch.tensor(v, dtype=model.dtype).double().numpy()
    if attr not in m.attrs:
        m.attrs = tuple(a for a in ATTRS if a in m.attrs or a == attr)
    if rep == "list":
        val = [torch.tensor(c[attr], dtype=model.dtype).reshape(-1, C) for c in m.clouds]
    else:
        val = torch.tensor(m.padded(attr), dtype=model.dtype)
    setattr(pc, attr + "_" + rep, val)
    return "%s_%s=" % (attr, rep), m, val


def append(rng, pc, model, other, omodel):
    out = pc.append_points(other)
    if omodel.B == 0:
        m = model.copy()
    elif model.B == 0:
        m = omodel.copy()
    else:
        m = model.copy()
        for c, o in zip(m.clouds, omodel.clouds):
            for a in m.attrs:
                c[a] = np.concatenate([c[a], o[a]], 0)
    return out, m


def compatible(a, b):
    if a.B == 0 or b.B == 0:
        return True
    if a.B != b.B or set(a.attrs) != set(b.attrs):
        return False
    if "features" in a.attrs and a.clouds[0]["features"].shape[1] != b.clouds[0]["features"].shape[1]:
        return False
    return True
