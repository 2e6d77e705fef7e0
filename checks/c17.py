"""C17: sequence windowing of the dataset readers."""
import os
import re
import warnings

import numpy as np

from vlib import dsets as DS, gen
from vlib.core import Check, Family, Skip


def params(rng, nmax):
    p = dict(seqlen=gen.count(rng, 1, 6, 6, 20, .07), dilation=[None, 0, 1, 2, 3, 5][int(rng.integers(0, 6))], stride=[None, None, 1, 2, 3, 5, 8][int(rng.integers(0, 7))])
    p["start"] = [None, 0, 1, 2, 5, int(rng.integers(0, nmax + 2))][int(rng.integers(0, 6))]
    s = p["start"] or 0
    p["end"] = None if rng.random() < .5 else s + int(rng.integers(1, nmax + 3))
    return p


def lists(rng, base, names):
    """the three documented ways to choose sequences, and the chosen names"""
    k = rng.random()
    if k < .35:
        return None, list(names)
    pick = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
    if k < .7:
        return tuple(pick), pick
    fn = os.path.join(base, "split.txt")
    with open(fn, "w") as f:
        f.write("\n".join(pick) + ("\n" if rng.random() < .5 else ""))
    return fn, pick


def ident(color, L):
    """(trajectory, frame) painted into each colour picture"""
    c = np.asarray(color.reshape(L, -1, 3)).round().astype(int)
    if (c != c[:, :1]).any():
        return None
    return [(int(x[1]) - 10, int(x[0])) for x in c[:, 0]]


def compare(ctx, ds, expect, tag, ident_of_item, names_ok):
    """expect: dict trajectory name -> list of windows of frames"""
    n = sum(len(v) for v in expect.values())
    ctx.eq("window-count", len(ds), n, "%s: number of windows" % tag)
    got = [ds[i] for i in range(len(ds))]
    ctx.count("windows", len(got))
    ids = [ident_of_item(g) for g in got]
    if not ctx.ok("window-frames-readable", all(i is not None for i in ids), "%s: a window mixes pictures" % tag):
        return
    # windows of one trajectory: contiguous, in order, exact frames
    want = {t: [[(f.traj, f.k) for f in w] for w in ws] for t, ws in expect.items()}
    tr = {w[0][0][0]: t for t, w in want.items() if w}
    seen = []
    for i, (item, fr) in enumerate(zip(got, ids)):
        ctx.ok("window-single-trajectory", len({t for t, _ in fr}) == 1, "%s window %d: frames of several trajectories %s" % (tag, i, fr))
        if not seen or seen[-1][0] != fr[0][0]:
            seen.append((fr[0][0], []))
        seen[-1][1].append((i, fr))
    ctx.ok("windows-of-a-trajectory-contiguous", len({t for t, _ in seen}) == len(seen), "%s: windows of trajectories interleaved: %s" % (tag, [t for t, _ in seen]))
    got_by = {}
    for t, ws in seen:
        got_by.setdefault(t, []).extend(ws)
    for t in set(got_by) | set(tr):
        g = [fr for _, fr in got_by.get(t, [])]
        w = want.get(tr.get(t), [])
        ctx.ok("window-frames", g == w, lambda: "%s trajectory %s: windows %s, expected %s" % (tag, tr.get(t), [[k for _, k in x] for x in g][:12], [[k for _, k in x] for x in w][:12]))
    frames = {(f.traj, f.k): f for ws in expect.values() for w in ws for f in w}
    for item, fr in zip(got, ids):
        if all(k in frames for k in fr):
            names_ok(item, [frames[k] for k in fr])
    return got


def icl(ctx):
    from gradslam.datasets.icl import ICL
    rng = ctx.rng
    with DS.Scratch() as base:
        nums = [str(v) for v in rng.permutation(6)[:gen.count(rng, 1, 4, 4, 7, .05)]]
        trajs, nmax = {}, 0
        for t, num in enumerate(nums):
            n = gen.count(rng, 1, 25, 25, 70, .06)
            nm, fr = DS.icl(rng, base, num, n, 2, 3, t=t, tail=bool(rng.random() < .7))
            trajs[nm] = fr
            nmax = max(nmax, len(fr))
        if rng.random() < .3:
            os.makedirs(os.path.join(base, "unrelated_folder")); open(os.path.join(base, "readme.txt"), "w").close()
        p = params(rng, nmax)
        arg, pick = lists(rng, base, list(trajs))
        ctx.set(lengths={k: len(v) for k, v in trajs.items()}, **p)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = ICL(base, arg, height=2, width=3, return_depth=False, return_intrinsics=False, return_pose=bool(rng.random() < .5), return_transform=bool(rng.random() < .3), **p)
            exp = {t: DS.windows(trajs[t], p["seqlen"], p["dilation"], p["stride"], p["start"] or 0, p["end"]) for t in pick}

            def names_ok(item, fr):
                toks = item[-1].split(", ")
                ctx.ok("names-match-frames", [os.path.split(x) for x in toks] == [(f.traj_name, f.name) for f in fr], lambda: "names %s, frames %s" % (item[-1], [f.name for f in fr]))
            compare(ctx, ds, exp, "ICL %s" % p, lambda it: ident(it[0], p["seqlen"]), names_ok)
    ctx.state(tuple(sorted(len(v) for v in trajs.values())), tuple(p.items()), type(arg).__name__)


def tum(ctx):
    from gradslam.datasets.tum import TUM
    rng = ctx.rng
    with DS.Scratch() as base:
        trajs, nmax = {}, 0
        drop = float(rng.choice([0, 0, .1, .3]))
        for t in range(gen.count(rng, 1, 4, 4, 8, .05)):
            n = gen.count(rng, 1, 25, 25, 70, .06)
            nm, fr = DS.tum(rng, base, ("%d_s%d" if rng.random() < .8 else "%d_room %d") % (rng.integers(1, 4), t), n, 2, 3, t=t, drop=drop)
            trajs[nm] = fr
            nmax = max(nmax, len(fr))
        p = params(rng, nmax)
        arg, pick = lists(rng, base, list(trajs))
        poses = bool(rng.random() < .6)
        ctx.set(lengths={k: len(v) for k, v in trajs.items()}, drop=drop, poses=poses, **p)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = TUM(base, arg, height=2, width=3, return_depth=False, return_intrinsics=False, return_pose=poses, return_transform=False, **p)
            exp = {}
            for t in pick:
                # start / end count rgb readings; a frame needs a depth (and pose) reading
                fr = [f for f in trajs[t][p["start"] or 0:p["end"]] if f.has_depth and (f.has_pose or not poses)]
                exp[t] = DS.windows(fr, p["seqlen"], p["dilation"], p["stride"])

            def names_ok(item, fr):
                toks = item[-2].split(", ")
                ctx.ok("names-match-frames", [[y for y in x.split("/") if y] for x in toks] == [[f.traj_name, f.s_rgb] for f in fr], lambda: "names %s, frames %s" % (item[-2], [f.s_rgb for f in fr]))
                ls = [l.split() for l in item[-1].split("\n")]
                want = [["rgb", f.s_rgb, "depth", f.s_depth, "pose", f.s_pose if poses else "None"] for f in fr]
                ctx.ok("timestamps-match-frames", ls == want, lambda: "timestamps %s, frames %s" % (ls, want))
            compare(ctx, ds, exp, "TUM %s" % p, lambda it: ident(it[0], p["seqlen"]), names_ok)
    ctx.state(tuple(sorted(len(v) for v in trajs.values())), tuple(p.items()), type(arg).__name__, drop, poses)


def scannet(ctx):
    from gradslam.datasets.scannet import Scannet
    rng = ctx.rng
    with DS.Scratch() as root:
        base, meta = os.path.join(root, "scans"), os.path.join(root, "meta")
        seqs, shortest = {}, 99
        t = 0
        for s in range(gen.count(rng, 1, 4, 4, 8, .05)):
            scene = "scene%04d_%02d" % (rng.integers(0, 30), s)
            for q in sorted(int(v) for v in rng.choice([0, 1, 2, 9, 10, 11, 12], int(rng.integers(1, 4)), replace=False)):
                n = gen.count(rng, 1, 12, 12, 40, .04)
                nm, fr = DS.scannet(rng, base, meta, scene, q, n, 2, 3, t=t)
                seqs[nm] = (scene, fr)
                t += 1
        scenes = sorted({v[0] for v in seqs.values()})
        arg, pick = lists(rng, root, scenes)
        chosen = {k: v for k, v in seqs.items() if v[0] in pick}
        shortest = min(len(v[1]) for v in chosen.values())
        start = int(rng.integers(0, shortest))
        end = -1 if rng.random() < .4 else int(rng.integers(start + 1, shortest + 1))
        ctx.set(lengths={k: len(v[1]) for k, v in seqs.items()}, start=start, end=end, pick=pick)
        ds = Scannet(base, meta, arg, start=start, end=end, height=2, width=3, return_depth=False, return_intrinsics=False, return_pose=False, return_transform=False, return_labels=False)
        ctx.eq("window-count", len(ds), len(chosen), "Scannet: number of sequences")
        names = []
        for i in range(len(ds)):
            color, name = ds[i]
            names.append(name)
            want = [(f.traj, f.k) for f in (chosen[name][1] if name in chosen else [])[start:None if end == -1 else end]]
            ctx.ok("names-match-frames", name in chosen, "name %s" % name)
            ids = ident(color, len(color))
            ctx.ok("window-frames", ids == want, lambda: "Scannet %s start=%d end=%d: frames %s, expected %s" % (name, start, end, ids, want))
            ctx.count("windows")
        ctx.ok("scannet-sequences-once", sorted(names) == sorted(chosen), "sequences %s, expected %s" % (names, sorted(chosen)))
        key = lambda s: [int(x) if x.isdigit() else x for x in re.split(r"(\d+)", s)]
        ctx.ok("scannet-natural-order", names == sorted(names, key=key), "sequence order %s" % names)
        # a range past the end of some sequence is refused
        longer = max(len(v[1]) for v in chosen.values())
        if rng.random() < .5:
            ctx.raises("scannet-range-past-end", (ValueError,), lambda: Scannet(base, meta, arg, start=start, end=longer + int(rng.integers(1, 4)), height=2, width=3), "end past the last frame")
    ctx.state(tuple(sorted(len(v[1]) for v in seqs.values())), start, end, type(arg).__name__)


CHECK = Check("C17", [
    Family("icl", icl, 250, 4000),
    Family("tum", tum, 250, 4000),
    Family("scannet", scannet, 200, 3000),
], require=["window-count", "window-frames", "window-single-trajectory", "windows-of-a-trajectory-contiguous", "names-match-frames", "timestamps-match-frames", "scannet-natural-order", "windows"],
    rule="case = one generated dataset folder read with one configuration; every delivered window is identified by its pictures; distinct = (trajectory lengths, configuration)",
    assumptions=["frames of a TUM sequence are the associated readings; start and end count rgb readings as documented", "trajectory 0 of ICL loses its last frame (documented missing pose)"])
