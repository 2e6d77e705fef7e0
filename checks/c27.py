"""C27: dataset readers serve exactly what was asked for or refuse; they never guess."""
import hashlib
import os
import shutil
import warnings

import numpy as np

from vlib import dsets as DS
from vlib.core import Check, Family, Skip

TE, VE = (TypeError,), (ValueError,)


def listing(base):
    """every file of the folder with its contents"""
    out = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, base)] = hashlib.md5(open(p, "rb").read()).hexdigest()
    return out


def build(rng, root, kind, many=True):
    """a valid folder: (reader, positional arguments, name -> number of frames)"""
    n = {}
    if kind == "ICL":
        from gradslam.datasets.icl import ICL as cls
        base = os.path.join(root, "icl"); os.makedirs(base)
        for t, num in enumerate(str(v) for v in rng.permutation(np.arange(1, 7))[:int(rng.integers(1, 4))]):
            nm, fr = DS.icl(rng, base, num, int(rng.integers(3, 8)), 2, 3, t=t)
            n[nm] = len(fr)
        return cls, [base], n
    if kind == "TUM":
        from gradslam.datasets.tum import TUM as cls
        base = os.path.join(root, "tum"); os.makedirs(base)
        for t in range(int(rng.integers(1, 4))):
            nm, fr = DS.tum(rng, base, "%d_s%d" % (rng.integers(1, 4), t), int(rng.integers(3, 8)), 2, 3, t=t)
            n[nm] = len(fr)
        return cls, [base], n
    from gradslam.datasets.scannet import Scannet as cls
    base, meta = os.path.join(root, "scans"), os.path.join(root, "meta")
    for t in range(int(rng.integers(1, 4))):
        scene = "scene%04d_%02d" % (rng.integers(0, 30), t)
        nm, fr = DS.scannet(rng, base, meta, scene, t, int(rng.integers(3, 8)), 2, 3, t=t)
        n[scene] = len(fr)
    return cls, [base, meta], n


def total(ds):
    """what a reader delivers: every item reduced to bytes"""
    out = []
    for i in range(len(ds)):
        h = hashlib.md5()
        for x in ds[i]:
            h.update(x.encode() if isinstance(x, str) else np.ascontiguousarray(x.numpy()).tobytes())
        out.append(h.hexdigest())
    return out


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def arguments(ctx):
    """constructor arguments of the wrong type or outside the documented range"""
    rng = ctx.rng
    kind = ["ICL", "TUM", "Scannet"][ctx.index % 3]
    with DS.Scratch() as root:
        cls, pos, n = build(rng, root, kind)
        names = list(n)
        short = min(n.values())
        base = dict(height=2, width=3, **(dict(return_pose=False, return_transform=False) if rng.random() < .3 else {}))
        seq = {"ICL": "trajectories", "TUM": "sequences", "Scannet": "scenes"}[kind]
        listfile = os.path.join(root, "chosen.txt")
        some = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
        with open(listfile, "w") as f:
            f.write("\n".join(some))
        base[seq] = [None, tuple(some), listfile][int(rng.integers(0, 3))]
        bad = [(seq, list(some), TE), (seq, 3, TE), (seq, set(some), TE), (seq, {s: 1 for s in some}, TE),
               (seq, os.path.join(root, "no such file.txt"), VE), (seq, some[0] + "_not_a_file", VE)]
        if kind != "Scannet":
            base.update(seqlen=int(rng.integers(1, 3)), start=int(rng.integers(0, 2)) if rng.random() < .7 else None,
                        stride=None if rng.random() < .5 else int(rng.integers(1, 4)), dilation=None if rng.random() < .5 else 0,
                        end=None if rng.random() < .5 else short)
            s = base["start"] or 0
            odd = [2.0, "3", [1], (2,), np.float64(2)]
            for a in ("seqlen", "stride", "dilation", "start", "end"):
                bad.append((a, odd[int(rng.integers(0, len(odd)))], TE))
                bad.append((a, -int(rng.integers(1, 9)), VE))
            bad += [("seqlen", None, TE), ("seqlen", 0, VE), ("stride", 0, VE), ("end", s, VE), ("end", 0, VE), (seq, (), VE)]
            if s:
                bad.append(("end", s - 1, VE))
            unknown = {"ICL": "living_room_traj9_frei_png", "TUM": "rgbd_dataset_freiburg9_none"}[kind]
            bad += [(seq, (unknown,), VE), (seq, tuple(some) + (unknown,), VE), (seq, (unknown,) + tuple(some), VE), (seq, tuple(x.upper() for x in some), VE)]
            if kind == "ICL":
                bad += [(seq, tuple(some) + ("living_room_traj1",), VE), (seq, ("traj1_frei_png",) + tuple(some), VE), (seq, ("office_traj1_frei_png",), VE)]
                if rng.random() < .5:      # folders of these names hold whole trajectories
                    for x in ("living_room_traj1", "traj1_frei_png", "office_traj1_frei_png"):
                        shutil.copytree(os.path.join(pos[0], names[0]), os.path.join(pos[0], x))
            nf = os.path.join(root, "unknown.txt")
            with open(nf, "w") as f:
                f.write("\n".join(list(some) + [unknown]) + "\n")
            bad.append((seq, nf, VE))
            empty = os.path.join(root, "empty.txt")
            open(empty, "w").close()
            bad.append((seq, empty, VE))
        else:
            base.update(start=int(rng.integers(0, 2)), end=-1 if rng.random() < .5 else short)
            bad += [("start", -int(rng.integers(1, 5)), VE), ("end", base["start"], VE), ("end", -int(rng.integers(2, 9)), VE),
                    ("end", max(n.values()) + int(rng.integers(1, 9)), VE)]
            if base["start"]:
                bad.append(("end", 0, VE))
            # the longest sequence must be among the ones read
            base[seq] = None if rng.random() < .5 else tuple(names)
            bad += [("seg_classes", x, VE) for x in ("scannet", "nyu", "scannet40", "")]
        before = listing(root)
        good = total(quiet(lambda: cls(*pos, **base)))
        ctx.count("valid-configurations")
        for i in rng.permutation(len(bad))[:12]:
            a, v, exc = bad[i]
            ctx.raises("argument-refused", exc, lambda: quiet(lambda: cls(*pos, **dict(base, **{a: v}))), "%s(%s=%r), otherwise %s" % (kind, a, v, base),
                       key="arguments/%s/%s/%s" % (kind, a, type(v).__name__ if exc is TE else exc[0].__name__))
            ctx.state(kind, a, type(v).__name__, exc[0].__name__)
        ctx.eq("folder-untouched", listing(root), before)
        ctx.eq("valid-configuration-unaffected", total(quiet(lambda: cls(*pos, **base))), good)
        ctx.set(kind=kind, lengths=n, config=base)


def rewrite(path, fn):
    with open(path) as f:
        lines = f.read().split("\n")
    with open(path, "w") as f:
        f.write("\n".join(fn(lines)))


def folders(ctx):
    """folders that lack a needed file, are misnamed or have list files out of form"""
    rng = ctx.rng
    kind = ["ICL", "TUM", "Scannet"][ctx.index % 3]
    with DS.Scratch() as root:
        cls, pos, n = build(rng, root, kind)
        names = list(n)
        who = names[int(rng.integers(0, len(names)))]
        base = pos[0]
        d = os.path.join(base, who)
        poses = bool(rng.random() < .5)
        kw = dict(height=2, width=3)
        if poses:
            kw.update([dict(return_pose=True, return_transform=True), dict(return_pose=True, return_transform=False), dict(return_pose=False, return_transform=True)][int(rng.integers(0, 3))])
        else:
            kw.update(return_pose=False, return_transform=False)
        if kind != "Scannet":
            kw["seqlen"] = int(rng.integers(1, 3))
        else:
            kw["scenes"] = None
        reference = total(quiet(lambda: cls(*pos, **kw)))
        ctx.ok("valid-folder-served", len(reference) > 0, "%s: nothing delivered from a valid folder" % kind)
        swap = lambda a, b: (lambda ls: [(l.replace(a, "\0").replace(b, a).replace("\0", b)) for l in ls])
        num = who.split("traj")[-1].split("_")[0] if kind == "ICL" else ""
        gt = os.path.join(d, "livingRoom%sn.gt.sim" % num) if kind == "ICL" else os.path.join(d, "groundtruth.txt")
        rm, at_item = os.remove, False
        V, ANY = "refused", "served unless poses are asked for"
        only = lambda c, a, b: (lambda ls: [l if not l.strip() else " ".join(t.replace(a, b) if i == c else t for i, t in enumerate(l.split())) for l in ls])
        used = n[who] - 1 if who == "living_room_traj0_frei_png" else n[who]      # poses counted by 4 lines each: 3 of values, 1 blank
        if kind == "ICL":
            acts = [("associations.txt missing", lambda: rm(os.path.join(d, "associations.txt")), V),
                    ("poses file missing", lambda: rm(gt), ANY),
                    ("poses file named for another trajectory", lambda: os.rename(gt, os.path.join(d, "livingRoom%dn.gt.sim" % (int(num) + 1))), ANY),
                    ("poses file cut short", lambda: rewrite(gt, lambda ls: [l for l in ls if l.strip()][:3 * (n[who] - 1)]), ANY),
                    ("last pose cut short", lambda: rewrite(gt, lambda ls: ls[:4 * (used - 1) + int(rng.integers(1, 3))]), ANY),
                    ("a colour entry under another folder", lambda: rewrite(os.path.join(d, "associations.txt"), only(3, "rgb/", "colour/")), V),
                    ("a depth entry under another folder", lambda: rewrite(os.path.join(d, "associations.txt"), only(1, "depth/", "rgb/")), V),
                    ("colour and depth columns swapped", lambda: rewrite(os.path.join(d, "associations.txt"), swap("rgb", "depth")), V),
                    ("no trajectory folder", lambda: [shutil.move(os.path.join(base, x), os.path.join(root, x)) for x in names], V),
                    ("all folders misnamed", lambda: [os.rename(os.path.join(base, x), os.path.join(base, x[:-4] + "_jpg")) for x in names], V)]
        elif kind == "TUM":
            odd = ["foo", "rgbd", "rgbd_dataset", "rgbd_dataset_freiburg1", "rgbd_data_freiburg1_x", "rgb_dataset_freiburg1_x", "rgbd_dataset_Freiburg1_x", "rgbd_dataset_munich1_x", "_", "__"]
            full = bool(rng.random() < .6)      # the misnamed folder holds a whole sequence
            o = odd[int(rng.integers(0, len(odd)))]
            acts = [("rgb.txt missing", lambda: rm(os.path.join(d, "rgb.txt")), V),
                    ("depth.txt missing", lambda: rm(os.path.join(d, "depth.txt")), V),
                    ("groundtruth.txt missing", lambda: rm(gt), ANY),
                    ("a folder named %s" % o, lambda: shutil.copytree(d, os.path.join(base, o)) if full else os.makedirs(os.path.join(base, o)), V),
                    ("rgb.txt lists depth files", lambda: rewrite(os.path.join(d, "rgb.txt"), lambda ls: [l.replace("rgb/", "depth/") for l in ls]), V),
                    ("depth.txt lists colour files", lambda: rewrite(os.path.join(d, "depth.txt"), lambda ls: [l.replace("depth/", "rgb/") for l in ls]), V),
                    ("no sequence folder", lambda: [shutil.move(os.path.join(base, x), os.path.join(root, x)) for x in names], V)]
        else:
            meta = [os.path.join(pos[1], x) for x in os.listdir(pos[1]) if x.startswith(who)][0]
            fields = ["color", "depth", "pose", "label-filt", "intrinsic_depth"]
            k = int(rng.integers(0, 5))
            f = fields[k % 5]
            which = int(rng.integers(0, n[who]))

            def spoil(ls):
                toks = ls[which].split()
                toks[[0, 2, 4, 6, 14][k % 5]] = ["colour", "Depth", "poses", "label", "intrinsic_color"][k % 5]
                ls[which] = " ".join(toks)
                return ls
            acts = [("metadata line %d without its %s entry" % (which, f), lambda: rewrite(meta, spoil), V)] * 7
        what, act, outcome = acts[int(rng.integers(0, len(acts)))]
        act()
        ctx.set(kind=kind, what=what, poses=poses, lengths=n)
        after = listing(root)
        if outcome == V or poses:
            ctx.raises("folder-refused", VE, lambda: total(quiet(lambda: cls(*pos, **kw))), "%s with %s, %s" % (kind, what, kw), key="folders/%s/%s" % (kind, what if "line" not in what else "metadata"))
        else:
            ctx.eq("served-without-poses", quiet(lambda: total(cls(*pos, **kw))), reference, "%s with %s and poses not asked for" % (kind, what))
        # the other sequences are still served on their own
        others = tuple(x for x in names if x != who)
        if others and what not in ("no trajectory folder", "all folders misnamed", "no sequence folder") and not what.startswith("a folder named") and rng.random() < .5:
            a = {"ICL": "trajectories", "TUM": "sequences", "Scannet": "scenes"}[kind]
            got = quiet(lambda: total(cls(*pos, **dict(kw, **{a: others}))))
            ctx.ok("other-sequences-served", len(got) > 0 and not set(got) - set(reference), "%s with %s: the other sequences are not served as before" % (kind, what))
        ctx.eq("folder-untouched", listing(root), after)
    ctx.state(kind, what, poses)


def bad_values(ctx):
    """pose values out of form surface when the item is read, and only there"""
    from gradslam.datasets.icl import ICL
    rng = ctx.rng
    with DS.Scratch() as root:
        nm, fr = DS.icl(rng, root, "1", int(rng.integers(3, 8)), 2, 3)
        gt = os.path.join(root, nm, "livingRoom1n.gt.sim")
        k, row = int(rng.integers(0, len(fr))), int(rng.integers(0, 3))
        with open(gt) as f:
            ref = f.read()
        sep = "\n\n"
        blocks = [b.split("\n") for b in ref.strip("\n").split(sep)]
        L = int(rng.integers(1, 4))
        L = min(L, len(fr))
        clean = total(quiet(lambda: ICL(root, seqlen=L, stride=1, height=2, width=3)))
        toks = blocks[k][row].split()
        blocks[k][row] = " ".join(toks[:-1] if rng.random() < .5 else toks + ["0.5"])
        with open(gt, "w") as f:
            f.write(sep.join("\n".join(b) for b in blocks) + sep)
        ds = quiet(lambda: ICL(root, seqlen=L, stride=1, height=2, width=3))
        ctx.eq("windows-kept", len(ds), len(clean))
        for i in range(len(ds)):
            if i <= k < i + L:
                ctx.raises("bad-pose-refused", VE, lambda: ds[i], "ICL window %d of length %d with frame %d's pose line out of form" % (i, L, k))
            else:
                h = hashlib.md5()
                for x in ds[i]:
                    h.update(x.encode() if isinstance(x, str) else np.ascontiguousarray(x.numpy()).tobytes())
                ctx.eq("other-windows-served", h.hexdigest(), clean[i])
        ctx.set(frames=len(fr), bad=k, row=row, L=L)
    ctx.state(len(fr), k, row, L)


CHECK = Check("C27", [
    Family("arguments", arguments, 300, 4000),
    Family("folders", folders, 400, 6000),
    Family("bad_values", bad_values, 100, 1500),
], require=["argument-refused", "valid-configuration-unaffected", "folder-refused", "served-without-poses", "other-sequences-served", "bad-pose-refused", "other-windows-served", "folder-untouched"],
    rule="case = one valid generated folder and one malformation; distinct = (reader, malformation, poses asked for)",
    assumptions=["each malformed case starts from a configuration the same run has seen served", "missing picture files are not claimed: they surface from the image library"])
