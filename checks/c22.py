"""C22: dump / load round trips."""
import copy
import logging
import os
import shutil
import tempfile

import numpy as np

from vlib import cfgmodel as M
from vlib.core import Check, Family

logging.getLogger("gradslam").setLevel(logging.CRITICAL)


def tolist(x):
    if isinstance(x, dict):
        return {k: tolist(v) for k, v in x.items()}
    return [tolist(v) for v in x] if isinstance(x, (list, tuple)) else x


def kwargs(rng):
    return {k: v for k, v in dict(default_flow_style=bool(rng.random() < .5), sort_keys=bool(rng.random() < .5), allow_unicode=bool(rng.random() < .5), width=int(rng.choice([10, 80, 1000])),
                                  indent=int(rng.choice([2, 4, 8])), explicit_start=bool(rng.random() < .5)).items() if rng.random() < .25}


def roundtrip(ctx):
    from gradslam.config import CfgNode, load_cfg
    rng = ctx.rng
    d = M.tree(rng, int(rng.integers(1, 6)), 8)
    cfg = CfgNode(d)
    for _ in range(int(rng.integers(0, 3))):
        nodes = M.all_nodes(cfg)
        setattr(nodes[int(rng.integers(0, len(nodes)))], "added%d" % rng.integers(0, 5), M.leaf(rng) if rng.random() < .6 else CfgNode(M.tree(rng, 2, 4)))
    frozen = rng.random() < .4
    if frozen:
        cfg.freeze()
    d = M.snapshot(cfg)
    kw = kwargs(rng)
    ctx.set(tree=d, dump=kw)
    text = cfg.dump(**kw)
    ctx.ok("dump-leaves-tree-alone", M.same(M.plain(cfg), d) and all(isinstance(n, CfgNode) for n in M.all_nodes(cfg)), "dump changed the tree")
    ctx.ok("dump-leaves-tree-alone", all(n.is_frozen() == frozen for n in M.all_nodes(cfg)), "dump changed the frozen flag")
    want = tolist(d)
    for name, load in (("load_cfg", load_cfg), ("CfgNode.load_cfg", CfgNode.load_cfg)):
        back = load(text)
        check_loaded(ctx, back, want, "%s of the dump" % name)
    ctx.ok("second-round-trip", M.same(M.plain(load_cfg(back.dump())), want), "dump of the loaded tree loads differently")
    tmp = tempfile.mkdtemp(prefix="cfg")
    try:
        ext = str(rng.choice(["", ".yml", ".yaml", ".py", ".py"]))
        path = os.path.join(tmp, "my" + (".dotted" if rng.random() < .2 and ext else "") + "cfg" + ext)
        with open(path, "w", encoding="utf-8") as f:
            if ext == ".py":
                want = d
                form = int(rng.integers(0, 2))
                f.write("from gradslam.config import CfgNode\ninf = float('inf')\nnan = float('nan')\nother = 3\ncfg = %s\n" % (("%r" if form else "CfgNode(%r)") % (d,)))
            else:
                f.write(text)
        with open(path, encoding="utf-8") as f:
            back = load_cfg(f)
        check_loaded(ctx, back, want, "file %s" % ext)
        ctx.count("file:" + (ext or "none"))
        empty = CfgNode(new_allowed=True)
        fresh = copy.deepcopy(want)
        empty.merge_from_other_cfg(back)
        ctx.ok("loaded-tree-usable", set(empty) == set(fresh), "merging a loaded tree lost keys")
        bad = os.path.join(tmp, "cfg" + str(rng.choice([".json", ".txt", ".PY2", ".cfg"])))
        with open(bad, "w") as f:
            f.write(text)
        with open(bad) as f:
            ctx.raises("unknown-extension-refused", (Exception,), lambda: load_cfg(f), bad)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    s = str(cfg)
    for p, v in M.paths(d):
        ctx.ok("printed", str(p[-1]) in s and (isinstance(v, dict) or str(v).split("\n")[0] in s), lambda: "str(cfg) lacks %s" % (p,))
    ctx.ok("printed", isinstance(repr(cfg), str) and "CfgNode" in repr(cfg), "repr")
    ctx.state(len(M.paths(d)), ext, tuple(sorted(kw)), max([len(p) for p, _ in M.paths(d)] or [0]))


def check_loaded(ctx, back, want, what):
    from gradslam.config import CfgNode
    ctx.ok("round-trip", M.same(M.plain(back), want), lambda: "%s gives %r, expected %r" % (what, M.plain(back), want))

    def nodes(x):
        return isinstance(x, CfgNode) and all(nodes(v) for v in x.values() if isinstance(v, dict))
    ctx.ok("subtrees-are-cfgnodes", nodes(back), "%s holds plain dicts" % what)
    ctx.ok("loaded-tree-usable", not back.is_frozen(), "%s is frozen" % what)


class MyInt(int):
    pass


def unsupported(ctx):
    """values of other types are refused on construction, on assignment and on dump, at every depth"""
    from gradslam.config import CfgNode, load_cfg
    import torch
    rng = ctx.rng
    vals = [None, 1j, b"bytes", {1, 2}, frozenset([1]), object(), np.float64(1.0), np.int64(3), np.zeros(2), torch.zeros(2), MyInt(3), len, range(3), bytearray(b"x"), np.bool_(True), np.str_("x")]
    v = vals[ctx.index % len(vals)]
    depth = int(rng.integers(0, 4))
    d = M.tree(rng, 2, 4)

    def nest(x):
        out = dict(M.tree(rng, 1, 3), bad=x)
        for j in range(depth):
            out = {"n%d" % j: out, **M.tree(rng, 1, 3)}
        return out
    what = "%s at depth %d" % (type(v).__name__, depth)
    ctx.raises("unsupported-refused", (AssertionError,), lambda: CfgNode(nest(v)), "construct with " + what)
    good = CfgNode(nest(1))
    leaf = good
    for j in reversed(range(depth)):
        leaf = leaf["n%d" % j]
    before = M.snapshot(good)
    ctx.raises("unsupported-refused", (AssertionError,), lambda: setattr(leaf, "bad", v), "assign " + what)
    ctx.raises("unsupported-refused", (AssertionError,), lambda: setattr(leaf, "new", v), "assign new " + what)
    ctx.ok("refusal-changes-nothing", M.same(M.plain(good), before), "refused assignment changed the tree")
    leaf["bad"] = v
    ctx.raises("unsupported-refused", (AssertionError,), lambda: good.dump(), "dump " + what)
    if depth and v is None:
        ctx.raises("unsupported-refused", (AssertionError,), lambda: load_cfg("A:\n  B: null\n"), "load null")
    for x in (3, None, ["A: 1"], b"A: 1", {"A": 1}):
        ctx.raises("load-argument-refused", (AssertionError,), lambda: load_cfg(x), "load_cfg(%r)" % (x,))
    tmp = tempfile.mkdtemp(prefix="cfg")
    try:
        path = os.path.join(tmp, "c.py")
        with open(path, "w") as f:
            f.write(["config = {'A': 1}\n", "cfg = [1, 2]\n", "cfg = None\n"][ctx.index % 3])
        with open(path) as f:
            ctx.raises("bad-module-refused", (AssertionError,), lambda: load_cfg(f), "python file without a usable cfg")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.ok("empty-document", M.plain(load_cfg("")) == {} and M.plain(CfgNode()) == {} and M.plain(CfgNode({})) == {}, "empty config")
    ctx.state(what, len(M.paths(d)))


def values(ctx):
    """one value at a time, every awkward string and number"""
    from gradslam.config import CfgNode, load_cfg
    rng = ctx.rng
    pool = M.STR + M.LIT + [chr(i) for i in (0x20, 0x7f, 0x85, 0xa0, 0x2028, 0x1f600, 0xfeff, 9, 10, 13)] + [0, -0.0, 1e300, 5e-324, float("inf"), -float("inf"), float("nan"), 2 ** 70, True, False, [], (), [[]], ((1,), [2]), 1e16, 1e-5, 100.0]
    v = pool[ctx.index % len(pool)]
    if isinstance(v, str) and rng.random() < .4:
        v = v + str(rng.choice(M.STR))
    cfg = CfgNode({"K": v, "S": {"K": [v], "T": (v, 1)}})
    for kw in ({}, {k: x for k, x in kwargs(rng).items() if k != "allow_unicode"}):      # PyYAML itself loses NEL and BOM under allow_unicode
        back = load_cfg(cfg.dump(**kw))
        ctx.ok("round-trip", M.same(M.plain(back), tolist(M.plain(cfg))), lambda: "%r (dump %r) gives %r" % (v, kw, M.plain(back)))
    ctx.state("value", repr(v)[:60])


CHECK = Check("C22", [
    Family("roundtrip", roundtrip, 500, 10000),
    Family("unsupported", unsupported, 160, 1600),
    Family("values", values, 400, 3000),
], require=["round-trip", "subtrees-are-cfgnodes", "dump-leaves-tree-alone", "unsupported-refused", "refusal-changes-nothing", "load-argument-refused", "unknown-extension-refused", "file:.py", "file:.yaml", "file:none"],
    rule="case = one tree dumped and loaded by every route; distinct = (tree size, depth, file kind, dump options)",
    assumptions=["string keys; tuples come back as lists from YAML"])
