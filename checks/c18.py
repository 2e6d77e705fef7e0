"""C18: TUM association and parsing."""
import os
import warnings
from fractions import Fraction

import numpy as np
import torch

from vlib import dsets as DS, gen
from vlib.core import Check, Family, Skip


def stamps(rng, n, kind, t0=None):
    t0 = float(rng.choice([0, 7.9, 96.2, 1305031102.1, -3.5])) if t0 is None else t0
    if kind == "regular":
        ts = t0 + np.arange(n) * .033
    elif kind == "jitter":
        ts = t0 + np.arange(n) * .033 + rng.uniform(-.03, .03, n)
    elif kind == "burst":
        ts = t0 + np.cumsum(rng.choice([.001, .002, .2, 1.0], n))
    elif kind == "dense":
        ts = t0 + rng.uniform(0, .1, n)
    elif kind == "grid":          # exact ties abound
        ts = t0 + rng.integers(0, 12, n) * .0625
    else:
        ts = t0 + rng.uniform(0, 20, n)
    if rng.random() < .3:
        ts = rng.permutation(ts)
    fmt = "%%.%df" % int(rng.choice([2, 4, 6]))
    out = []
    for t in ts:
        s = fmt % t
        if rng.random() < .1:
            s = s.rstrip("0").rstrip(".") or "0"      # "12.5" among "12.500000"
        if s not in out and float(s) not in [float(x) for x in out]:
            out.append(s)
    return out


def slack_of(stamps):
    """rounding of differences of stamps in double precision"""
    if all(Fraction(x) * 1024 % 1 == 0 for x in stamps):
        return 0.0        # dyadic stamps: no rounding at all
    return 1e-12 + 8 * 2.3e-16 * max([1.0] + [abs(float(x)) for x in stamps])


def judge(ctx, first, second, offset, tol, matches, tag, ordered=True):
    """the laws of a closest-first one-to-one pairing, from the returned pairs alone"""
    A, B = list(first), list(second)
    d = lambda a, b: abs(float(a) - (float(b) + offset))
    slack = slack_of(A + B + [str(offset)])
    ctx.ok("pairs-are-readings", all(a in first and b in second for a, b in matches), "%s: pair of unknown stamps" % tag)
    ctx.ok("each-reading-once", len({a for a, _ in matches}) == len(matches) == len({b for _, b in matches}), "%s: a reading is used twice: %s" % (tag, matches))
    ctx.ok("pairs-in-tolerance", all(d(a, b) < tol + slack for a, b in matches), lambda: "%s: pair out of tolerance %g: %s" % (tag, tol, [(a, b, d(a, b)) for a, b in matches if d(a, b) >= tol + slack]))
    if ordered:
        t = [float(a) for a, _ in matches]
        ctx.ok("matches-in-time-order", t == sorted(t), "%s: order %s" % (tag, [a for a, _ in matches]))
    da, db = {a: d(a, b) for a, b in matches}, {b: d(a, b) for a, b in matches}
    inf = float("inf")
    for a in A:
        for b in B:
            x = d(a, b)
            if x < tol - slack and x < min(da.get(a, inf), db.get(b, inf)) - slack:
                if a not in da and b not in db:
                    ctx.ok("no-pair-missed", False, "%s: %s and %s are %g apart (tolerance %g) and both unused" % (tag, a, b, x, tol))
                else:
                    ctx.ok("closest-pair-first", False, "%s: %s-%s are %g apart but matched at %g / %g" % (tag, a, b, x, da.get(a, inf), db.get(b, inf)))
                return
    ctx.count("monitor:no-pair-missed")
    ctx.count("monitor:closest-pair-first")


def associate(ctx):
    from gradslam.datasets.tumutils import associate as assoc
    rng = ctx.rng
    kinds = ["regular", "jitter", "burst", "dense", "grid", "uniform"]
    t0 = float(rng.choice([0, 7.9, 99.95, 1305031102.1, -3.5]))
    k1, k2 = str(rng.choice(kinds)), str(rng.choice(kinds))
    na, nb = int(rng.integers(0, 25)), int(rng.integers(0, 25))
    if rng.random() < .02:      # long recordings
        na, nb = int(rng.integers(40, 200)), int(rng.integers(40, 200)) if rng.random() < .6 else nb
    a = stamps(rng, na, k1, t0)
    b = stamps(rng, nb, k2, t0 if rng.random() < .85 else None)
    if rng.random() < .2 and a:
        b = list(dict.fromkeys(b + [str(x) for x in rng.choice(a, min(3, len(a)), replace=False)]))
    off = float(rng.choice([0, 0, .01, -.02, .5, -1.0]))
    tol = float(rng.choice([.02, .02, .001, .1, .5, 0, 5.0, .125]))
    if rng.random() < .15:      # any offset; the second recording is shifted with it now and then, as clocks are
        off = float(round(rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 4), 4))
        if rng.random() < .7:
            b = list(dict.fromkeys("%.6f" % (float(x) - off) for x in b))
    if rng.random() < .1:
        tol = float(10 ** rng.uniform(-6, 3))
    if k1 == k2 == "grid" or rng.random() < .04:
        a, b = (stamps(rng, 20, "grid", float(rng.choice([0, 1e6, -3.5]))) for _ in range(2))
        off, tol = float(rng.choice([0, .0625, -.5])), float(rng.choice([.0625, .125, .25, .5]))
    first, second = {x: ["rgb/%s.png" % x] for x in a}, {x: ["depth/%s.png" % x] for x in b}
    c1, c2 = dict(first), dict(second)
    ctx.set(first=a, second=b, offset=off, tol=tol)
    m = assoc(first, second, off, tol)
    ctx.count("pairs", len(m))
    judge(ctx, first, second, off, tol, m, "associate %s/%s" % (k1, k2))
    ctx.ok("inputs-untouched", list(first.items()) == list(c1.items()) and list(second.items()) == list(c2.items()), "dictionaries changed")
    # insertion order of the readings must not decide which pairs are made (unless there are ties)
    ds = [abs(float(x) - (float(y) + off)) for x in a for y in b]
    sl, v = slack_of(a + b + [str(off)]), np.sort(ds)
    if not len(v) or (np.diff(v) > 4 * sl).all() and (np.abs(v - tol) > 4 * sl).all():
        p = lambda q: {q_: c1.get(q_, c2.get(q_)) for q_ in [q[i] for i in rng.permutation(len(q))]}
        ctx.ok("order-independent", assoc(p(a), p(b), off, tol) == m, "pairs depend on the order of the dictionaries")
        # symmetry
        sw = assoc(second, first, -off, tol)
        ctx.ok("symmetric", sorted((y, x) for x, y in sw) == sorted(m), lambda: "swapping the arguments gives %s instead of %s" % (sw, m))
    ctx.state(k1, k2, len(a), len(b), off, tol, len(m))


def make_file(rng, rows, path, pose):
    """rows: list of token lists.  Returns text written with legal noise; rows are kept in order."""
    out = []
    for r in rows:
        while rng.random() < .25:
            out.append(str(rng.choice(["", "# comment", "#1.5 2 3", "   ", "\t", "# a,b,c"])))
        sep = str(rng.choice([" ", "  ", "\t", ",", ", ", " \t "]))
        line = sep.join(r)
        if rng.random() < .2:
            line = line + str(rng.choice([" ", "\t", "  "]))
        if rng.random() < .12:
            line = str(rng.choice([" ", "\t", "  "])) + line
        out.append(line)
    txt = ("\r\n" if rng.random() < .15 else "\n").join(out)
    if rng.random() < .8:
        txt += "\n"
    with open(path, "w", newline="") as f:
        f.write(txt)


def parsing(ctx):
    from gradslam.datasets import tumutils as TU
    rng = ctx.rng
    with DS.Scratch() as d:
        n = gen.count(rng, 0, 15, 15, 250, .08)
        ts = stamps(rng, n, str(rng.choice(["regular", "burst", "uniform"])))
        rows = [[t] + ["rgb/%s.png" % t] + ["x%d" % k for k in range(gen.count(rng, 0, 3, 3, 9, .05))] for t in ts]
        path = os.path.join(d, "list.txt")
        if rng.random() < .2 and rows:
            short = int(rng.integers(0, len(rows) + 1))
            full = rows[:short] + [["%.6f" % rng.uniform(1e9, 2e9)]] + rows[short:]      # a stamp without data
        else:
            full = rows
        make_file(rng, full, path, False)
        start = [None, 0, 1, 2, n // 2, n, n + 2][int(rng.integers(0, 7))]
        end = [None, None, 1, n // 2 + 1, n, n + 3, max(0, n - 2)][int(rng.integers(0, 7))]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = TU.read_file_list(path, start, end)
        ctx.ok("file-list", list(got.items()) == [(r[0], r[1:]) for r in rows[start:end]], lambda: "start=%s end=%s: read %s, file holds %s" % (start, end, list(got.items()), rows))
        # trajectories
        m = gen.count(rng, 0, 12, 12, 250, .08)
        ts = stamps(rng, m, "regular")
        rows, keep = [], []
        for t in ts:
            q = DS.quat_of(rng) * (1 if rng.random() < .8 else rng.uniform(.5, 2))
            small = rng.random() < .1
            if small:      # only its direction matters
                q = q * 10 ** rng.uniform(-5, 5)
            elif rng.random() < .15:      # exact values, components cancelling each other
                q = rng.permutation([[.5, .5, -.5, -.5], [1, -1, 0, 0], [0, 0, 0, 1], [.6, -.6, 0, 0], [-.5, -.5, -.5, -.5], [3, -1, -1, -1]][int(rng.integers(0, 6))])
            v = np.concatenate([rng.normal(size=3) * 10 ** rng.uniform(-2, 2), q])
            tx = ["%.8e" % x if small else "%.6f" % x if rng.random() < .8 else "%.4e" % x for x in v]
            k = rng.random()
            if k < .08:
                tx[int(rng.integers(0, 7))] = str(rng.choice(["nan", "NaN"]))
            elif k < .14:
                tx[3:] = ["0", "0.0", "0", "0"]
            else:
                keep.append((t, [float(x) for x in tx]))
            rows.append([t] + tx)
        path = os.path.join(d, "traj.txt")
        make_file(rng, rows, path, True)
        import contextlib, io
        with contextlib.redirect_stderr(io.StringIO()):
            raw = TU.read_trajectory(path, matrix=False)
            mat = TU.read_trajectory(path) if rng.random() < .5 else TU.read_trajectory(path, matrix=True)
        ctx.ok("trajectory-values", [(k, list(v)) for k, v in raw.items()] == keep, lambda: "read %s, file holds %s" % (list(raw.items()), keep))
        ctx.ok("trajectory-stamps", list(mat) == [k for k, _ in keep], lambda: "stamps %s, expected %s" % (list(mat), [k for k, _ in keep]))
        for (k, v) in keep:
            if k in mat:
                E = np.eye(4); E[:3, :3] = DS.quat_to_rot(v[3:]); E[:3, 3] = v[:3]
                ctx.close("trajectory-matrix", mat[k], E, 1e-9, 1e-9, "pose of %s" % v)
        ctx.set(n=n, start=start, end=end, poses=len(rows))
        ctx.state(n, start, end, len(rows), len(keep))


def poses(ctx):
    from gradslam.datasets import datautils as DU, tumutils as TU
    from gradslam.datasets.tum import TUM
    rng = ctx.rng
    shape = [(), (1,), (4,), (2, 3), (0,), (2, 1, 2)][int(rng.integers(0, 6))]
    t = rng.normal(size=shape + (3,)) * 3
    q = rng.normal(size=shape + (4,))
    q /= np.linalg.norm(q, axis=-1, keepdims=True) / (10 ** rng.uniform(-5, 5, shape + (1,)) if rng.random() < .4 else 1)
    if rng.random() < .3:
        e = np.zeros(4); e[int(rng.integers(0, 4))] = rng.choice([-1, 1])
        q[...] = e
    pq = np.concatenate([t, q], -1)
    E = np.zeros(shape + (4, 4)); E[..., 3, 3] = 1
    E[..., :3, 3] = t
    for i in np.ndindex(*shape):
        E[i][:3, :3] = DS.quat_to_rot(q[i])
    for mk in (lambda a: a.astype(np.float32), lambda a: a.copy(), lambda a: torch.tensor(a), lambda a: torch.tensor(a, dtype=torch.float32)):
        x = mk(pq)
        keep = x.copy() if isinstance(x, np.ndarray) else x.clone()
        got = DU.pointquaternion_to_homogeneous(x)
        ctx.ok("pose-type", isinstance(got, np.ndarray) == isinstance(x, np.ndarray), "type %s for %s" % (type(got), type(x)))
        ctx.close("pose-is-rigid-motion", got, E, 2e-6, 2e-6 * (1 + np.abs(t).max() if t.size else 1), "pointquaternion_to_homogeneous %s" % type(x).__name__)
        ctx.eq("inputs-untouched", x, keep, "pointquaternion_to_homogeneous changed its argument")
    if shape == ():
        keep = [1.5] + list(pq)
        M = TU.transform44(tuple(keep))
        ctx.close("pose-is-rigid-motion", M, E, 1e-9, 1e-9, "transform44")
        Z = np.eye(4); Z[:3, 3] = t
        ctx.close("pose-degenerate-quaternion", TU.transform44(tuple([1.5] + list(t) + [0.0, 0, 0, 0])), Z, 0, 0, "transform44 of a zero quaternion")
    ctx.state(shape, bool(abs(np.linalg.norm(q.reshape(-1, 4), axis=1) - 1).max(initial=0) > 1e-6))


def reader(ctx):
    """association inside the reader, on ambiguous stamps"""
    from gradslam.datasets.tum import TUM
    rng = ctx.rng
    with DS.Scratch() as base:
        d = os.path.join(base, "rgbd_dataset_freiburg1_a")
        kind = str(rng.choice(["regular", "jitter", "burst", "dense"]))
        t0 = float(rng.choice([.1, 9.8, 1305031102.1]))
        R, D, P = (stamps(rng, gen.count(rng, 2, 20, 20, 120, .04), kind, t0) for _ in range(3))
        key = float
        R.sort(key=key); D.sort(key=key); P.sort(key=key)
        for i, s in enumerate(R):
            DS.write_png(os.path.join(d, "rgb", s + ".png"), np.full((2, 3, 3), i, np.uint8))
        for i, s in enumerate(D):
            DS.write_png(os.path.join(d, "depth", s + ".png"), np.full((2, 3), i + 1, np.uint16))
        Q = {s: ["%d" % i, "0", "0"] + ["%.4f" % v for v in DS.quat_of(rng)] for i, s in enumerate(P)}
        make_file(rng, [[s, "rgb/%s.png" % s] for s in R], os.path.join(d, "rgb.txt"), False)
        make_file(rng, [[s, "depth/%s.png" % s] for s in D], os.path.join(d, "depth.txt"), False)
        make_file(rng, [[s] + Q[s] for s in P], os.path.join(d, "groundtruth.txt"), False)
        pose = bool(rng.random() < .7)
        ctx.set(rgb=R, depth=D, pose=P if pose else None)
        ds = TUM(base, seqlen=1, height=2, width=3, return_pose=pose, return_transform=pose, return_intrinsics=False)
        trip = [ds[i][-1].split() for i in range(len(ds))]
        trip = [(x[1], x[3], x[5]) for x in trip]
        ctx.count("pairs", len(trip))
        tol = .02
        if not pose:
            judge(ctx, dict.fromkeys(R), dict.fromkeys(D), 0, tol, [(a, b) for a, b, _ in trip], "reader %s" % kind)
        else:
            ctx.ok("each-reading-once", all(len({x[i] for x in trip}) == len(trip) for i in range(3)), "reader: a reading is used twice %s" % trip)
            ctx.ok("pairs-in-tolerance", all(abs(float(a) - float(b)) < tol and abs(float(b) - float(c)) < tol for a, b, c in trip), "reader: readings out of tolerance %s" % trip)
            # the depth-pose pairing is closest-first over the depths that have a colour picture
            ds0 = TUM(base, seqlen=1, height=2, width=3, return_pose=False, return_transform=False, return_intrinsics=False)
            rd = [ds0[i][-1].split() for i in range(len(ds0))]
            rd = {x[3]: x[1] for x in rd}
            judge(ctx, dict.fromkeys(rd), dict.fromkeys(P), 0, tol, [(b, c) for _, b, c in trip], "reader poses %s" % kind)
            ctx.ok("pairs-consistent", all(rd.get(b) == a for a, b, _ in trip), "reader: colour and depth paired differently with and without poses")
        # what is delivered for a frame is what the stamps say
        for i in range(len(ds)):
            it = ds[i]
            a, b, c = trip[i]
            ctx.ok("delivered-as-reported", float(it[0].max()) == R.index(a) == float(it[0].min()) and abs(float(it[1].max()) * 5000 - D.index(b) - 1) < 1e-3, "item %d delivers other pictures than its timestamps name" % i)
            ctx.ok("delivered-as-reported", R.index(a) == 0 and a in it[-2] or a in it[-2], "item %d: name %s for %s" % (i, it[-2], a))
            if pose:
                ctx.close("delivered-as-reported", np.asarray(ds.poses[i][0])[:1] if hasattr(ds, "poses") and np.asarray(ds.poses[i][0]).shape == (7,) else [P.index(c)], [P.index(c)], 0, 1e-6, "pose of item %d" % i)
    ctx.state(kind, len(R), len(D), len(P), pose, len(trip))


CHECK = Check("C18", [
    Family("associate", associate, 1500, 30000),
    Family("parsing", parsing, 400, 8000),
    Family("poses", poses, 300, 4000),
    Family("reader", reader, 150, 2500),
], require=["each-reading-once", "pairs-in-tolerance", "matches-in-time-order", "no-pair-missed", "closest-pair-first", "order-independent", "symmetric", "file-list", "trajectory-values", "trajectory-matrix",
            "pose-is-rigid-motion", "pose-degenerate-quaternion", "delivered-as-reported", "pairs"],
    rule="case = one set of stamp lists / one text file / one pose array; distinct = (stamp patterns, sizes, offset, tolerance, matches)",
    assumptions=["two readings of one list never carry the same time", "ties (equal distances) may be broken either way"])
