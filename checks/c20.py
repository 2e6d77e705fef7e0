"""C20: configuration merging, decided by a plain-dict model run beside the real tree."""
import copy
import logging
import os
import shutil
import tempfile
from ast import literal_eval

import yaml

from vlib import cfgmodel as M
from vlib.core import Check, Family, Skip

logging.getLogger("gradslam").setLevel(logging.CRITICAL)


def decode(v):
    if not isinstance(v, str):
        return v
    try:
        out = literal_eval(v)
        return Other() if isinstance(out, dict) else out        # a spelled-out dict is no configuration node
    except (ValueError, SyntaxError):
        return v


class Other:
    pass


OKLEAF = (int, float, bool, str, list, tuple)


class Bad(Exception):
    pass


class Model:
    """Nested dicts + per-node new_allowed flags + registered deprecated / renamed keys of the root."""

    def __init__(self, d, allowed=()):
        self.d = copy.deepcopy(d)
        self.allowed = set(allowed)
        self.dep, self.ren, self.snaps = set(), set(), []

    def coerce(self, v, old):
        if isinstance(old, dict) != isinstance(v, dict):
            raise Bad("ValueError")
        if isinstance(old, dict) or type(v) is type(old):
            return v
        if isinstance(old, tuple) and isinstance(v, list):
            return tuple(v)
        if isinstance(old, list) and isinstance(v, tuple):
            return list(v)
        raise Bad("ValueError")

    def merge(self, src, at=(), bad=None):
        """apply every acceptable entry; the errors of the others go to `bad`"""
        bad = [] if bad is None else bad
        dst = M.get(self.d, at)
        for k, v in src.items():
            v = decode(copy.deepcopy(v))
            full = ".".join(at + (k,))
            if k in dst:
                try:
                    v = self.coerce(v, dst[k])
                except Bad as e:
                    bad.append(str(e))
                    continue
                if isinstance(v, dict):
                    self.merge(v, at + (k,), bad)
                else:
                    dst[k] = v
            elif at in self.allowed:
                dst[k] = v                      # a subtree is taken as it is
            elif full in self.dep:
                continue
            else:
                bad.append("KeyError")
        return bad

    def merge_list(self, lst):
        if len(lst) % 2:
            return ["AssertionError"]
        bad = []
        for key, v in zip(lst[0::2], lst[1::2]):
            if key in self.dep:
                continue
            if key in self.ren:
                bad.append("KeyError")
                continue
            path = tuple(key.split("."))
            d = self.d
            for k in path[:-1]:
                d = d[k] if isinstance(d, dict) and k in d else None
            if not isinstance(d, dict) or path[-1] not in d:
                bad.append("AssertionError")
                continue
            try:
                d[path[-1]] = self.coerce(decode(copy.deepcopy(v)), d[path[-1]])
            except Bad as e:
                bad.append(str(e))
            self.snaps.append(copy.deepcopy(self.d))
        return bad


KEYS = ["A", "B", "LR", "NUM_ITERS", "name", "model", "x1", "_under", "yes", "k-dash", "é", "items_", "DATA"]


def build(ctx, depth=3):
    """a real tree and its model; some nodes accept new keys"""
    from gradslam.config import CfgNode
    rng = ctx.rng
    d = M.tree(rng, depth, 6, True, KEYS)
    allow_root = rng.random() < .3
    cfg = CfgNode(d, new_allowed=allow_root)
    m = Model(d, [()] if allow_root else [])
    if rng.random() < .4:
        sub = M.tree(rng, 2, 4, True, KEYS)
        free = [k for k in KEYS if k not in d]
        if free:
            k = str(rng.choice(free))
            al = rng.random() < .7
            setattr(cfg, k, CfgNode(sub, new_allowed=al))
            m.d[k] = copy.deepcopy(sub)
            if al:
                m.allowed.add((k,))
    return cfg, m


def like(rng, v, wrong=0.0):
    """a replacement value for leaf / subtree v"""
    if rng.random() < wrong:
        return M.leaf(rng) if rng.random() < .7 else M.tree(rng, 2, 3, True, KEYS)
    if isinstance(v, dict):
        return {k: like(rng, x, wrong / 2) for k, x in v.items() if rng.random() < .6}
    kind = {int: "int", float: "float", bool: "bool", str: "str", list: "list", tuple: "tuple"}.get(type(v))
    r = rng.random()
    if kind in ("list", "tuple") and r < .4:
        return M.leaf(rng, "list" if kind == "tuple" else "tuple")
    out = M.leaf(rng, kind)
    if kind == "str":
        out = out if isinstance(decode(out), str) or rng.random() < .1 else "v_" + out
    elif r > .7 and out not in (float("inf"),) and "inf" not in repr(out):
        out = repr(out)
    return out


def order(rng, d):
    ks = list(d)
    rng.shuffle(ks)
    return {k: order(rng, d[k]) if isinstance(d[k], dict) else d[k] for k in ks}


def source(ctx, m, bad):
    """overlay for the model's tree"""
    rng = ctx.rng

    def overlay(node, at):
        out = {}
        for k, v in node.items():
            if rng.random() < .5:
                continue
            out[k] = overlay(v, at + (k,)) if isinstance(v, dict) and rng.random() < .8 else like(rng, v, bad)
        if at in m.allowed and rng.random() < .7:
            k = "new%d" % rng.integers(0, 4)
            if k not in out:
                out[k] = M.leaf(rng) if rng.random() < .6 else M.tree(rng, 2, 3, True, KEYS)
                if not isinstance(decode(out[k]), OKLEAF + (dict,)):
                    out[k] = "plain"
        elif rng.random() < bad:
            k = str(rng.choice(["unknown", "Zz", "a.b"]))
            if at not in m.allowed:
                out[k] = M.leaf(rng)
        return out

    src = order(rng, overlay(m.d, ()))
    for full in sorted(m.dep | m.ren):
        if rng.random() < .5:
            path = tuple(full.split("."))
            d, ok = src, True
            for k in path[:-1]:
                if not isinstance(d.get(k, {}), dict):
                    ok = False
                    break
                d = d.setdefault(k, {})
            if ok and path[-1] not in d:
                d[path[-1]] = M.leaf(rng) if rng.random() < .7 else {"q": 1}
    return src


def register(ctx, cfg, m):
    rng = ctx.rng
    nodes = [p for p, v in M.paths(m.d) if isinstance(v, dict)] + [()]
    for _ in range(int(rng.integers(0, 4))):
        at = nodes[int(rng.integers(0, len(nodes)))]
        if at in m.allowed or any("." in k for k in at):
            continue
        old = "OLD%d" % rng.integers(0, 3)
        here = M.get(m.d, at)
        if here and rng.random() < .5:
            # a name that only looks like a live one: registered keys are whole keys
            live = str(rng.choice(sorted(here)))
            old = str(rng.choice([live[:-1], live[1:], live + "X", live.swapcase(), "X" + live]))
            if not old or old in here or "." in old:
                continue
        full = ".".join(at + (old,))
        if full in m.dep or full in m.ren:
            if full in m.dep:
                ctx.raises("register-twice-refused", (AssertionError,), lambda: cfg.register_deprecated_key(full), full)
            else:
                ctx.raises("register-twice-refused", (AssertionError,), lambda: cfg.register_renamed_key(full, "X.Y"), full)
            continue
        if rng.random() < .5:
            cfg.register_deprecated_key(full)
            m.dep.add(full)
        else:
            msg = "note" if rng.random() < .5 else None
            cfg.register_renamed_key(full, "NEW.NAME", msg)
            m.ren.add(full)


def clobber(x):
    """change every mutable leaf of a nested dict in place"""
    if isinstance(x, dict):
        for v in list(x.values()):
            clobber(v)
    elif isinstance(x, list):
        for v in x:
            clobber(v)
        x.append("CLOBBERED")
    elif isinstance(x, tuple):
        for v in x:
            clobber(v)


def between(got, ways):
    """every entry of got is the entry of one of the trees in ways (the first: before the merge)"""
    if isinstance(got, dict) and any(isinstance(x, dict) for x in ways):
        ways = [x if isinstance(x, dict) else {} for x in ways]
        miss = object()
        return set(ways[0]) <= set(got) and all(between(got[k], [x.get(k, miss) for x in ways]) for k in got)
    return any(M.same(got, x) for x in ways)


def outcome(ctx, cfg, m, do, model_do, mon):
    """run both sides and compare the outcome"""
    before = M.snapshot(cfg)
    m.snaps = []
    bad = model_do()
    if any(isinstance(v, Other) for _, v in M.paths(m.d)):
        raise Skip()          # a new entry whose text spells a dict: outside the claim
    got = None
    try:
        do()
    except (ValueError, KeyError, AssertionError) as e:
        got = type(e).__name__
    ctx.log(mon, "model:", repr(bad), "real:", got)
    now = M.plain(cfg)
    if not bad:
        ctx.ok("merge-accepted", got is None, "%s: valid merge rejected with %s" % (mon, got))
        ctx.count("accepted:" + mon)
        ctx.ok("merged-values", M.same(now, m.d), lambda: "%s: tree is %r, model %r (before %r)" % (mon, now, m.d, before))
    else:
        ctx.ok("merge-rejected", got in bad, "%s: expected %s, got %s" % (mon, bad, got))
        ctx.count("rejected:%s:%s" % (mon, bad[0]))
        ctx.ok("rejected-merge-corrupts-nothing", between(now, [before] + m.snaps + [m.d]), lambda: "%s: tree is %r, before %r, acceptable entries applied %r" % (mon, now, before, m.d))
        m.d = M.snapshot(cfg)
    ctx.state(mon, tuple(sorted(set(bad))), len(M.paths(m.d)), len(m.allowed), len(m.dep), len(m.ren))


def step_other(ctx, cfg, m, bad):
    from gradslam.config import CfgNode
    rng = ctx.rng
    src = source(ctx, m, bad)
    other = CfgNode(src)
    if rng.random() < .3:
        other.freeze()
    if rng.random() < .1:
        ctx.raises("merge-rejected", (AssertionError,), lambda: cfg.merge_from_other_cfg(dict(src)), "merge of a plain dict")
        ctx.ok("merged-values", M.same(M.plain(cfg), m.d), "rejected merge changed the tree")
    keep = M.snapshot(other)
    flags = [n.is_frozen() for n in M.all_nodes(other)]
    ctx.log("merge_from_other_cfg", repr(src)[:600])
    outcome(ctx, cfg, m, lambda: cfg.merge_from_other_cfg(other), lambda: m.merge(src), "other_cfg")
    ctx.ok("source-untouched", M.same(M.plain(other), keep) and [n.is_frozen() for n in M.all_nodes(other)] == flags, lambda: "source became %r from %r" % (M.plain(other), keep))
    clobber(dict(other))
    ctx.ok("source-not-shared", M.same(M.plain(cfg), m.d), lambda: "changing the merge source later changed the tree: %r vs %r" % (M.plain(cfg), m.d))
    ids = {id(n) for n in M.all_nodes(cfg)} & {id(n) for n in M.all_nodes(other)}
    ctx.ok("source-not-shared", not ids, "tree and merge source share nodes")


def step_file(ctx, cfg, m, bad, tmp):
    rng = ctx.rng
    src = source(ctx, m, bad)
    kind = str(rng.choice([".yaml", ".yml", ".py", ""]))
    path = os.path.join(tmp, "c%d%s" % (rng.integers(0, 10 ** 9), kind))
    if kind == ".py":
        form = rng.random() < .5
        text = "inf = float('inf')\n" + ("from gradslam.config import CfgNode\ncfg = CfgNode(%r)\n" % (src,) if form else "cfg = %r\n" % (src,))
        seen = src
    else:
        def tolist(x):
            if isinstance(x, dict):
                return {k: tolist(v) for k, v in x.items()}
            return [tolist(v) for v in x] if isinstance(x, (list, tuple)) else x
        seen = tolist(src)
        text = yaml.safe_dump(seen, sort_keys=False, default_flow_style=bool(rng.random() < .3), allow_unicode=False)
        if not src and rng.random() < .5:
            text = "# nothing\n"
    with open(path, "w") as f:
        f.write(text)
    ctx.log("merge_from_file", kind, text[:400])
    outcome(ctx, cfg, m, lambda: cfg.merge_from_file(path), lambda: m.merge(seen), "file" + kind)
    with open(path) as f:
        ctx.ok("source-untouched", f.read() == text, "merge_from_file changed the file")


def step_list(ctx, cfg, m, bad):
    rng = ctx.rng
    ps = [(p, v) for p, v in M.paths(m.d) if not isinstance(v, dict) and not any("." in k for k in p)]
    lst = []
    many = int(rng.integers(5, 40)) if rng.random() < .05 else 0
    for _ in range(many or int(rng.integers(0, 5))):
        r = rng.random()
        if r < bad / 2 / (1 + many) or not ps:
            if rng.random() < .5 and ps:
                p, _v = ps[int(rng.integers(0, len(ps)))]
                key = ".".join(p[:-1] + ("nope",))
            else:
                key = str(rng.choice(["unknown", "A.nope.x", "Zz.A"]))
            val = M.leaf(rng)
        elif r < (.02 if many else .2) and (m.dep or m.ren):
            key, val = sorted(m.dep | m.ren)[0], M.leaf(rng)
        else:
            p, v = ps[int(rng.integers(0, len(ps)))]
            key, val = ".".join(p), like(rng, v, bad / 2 / (1 + many))
            if isinstance(val, dict):
                val = M.leaf(rng)
        # 'LR.x' where LR is a leaf is a malformed path, not generated; a literal dict is not a leaf
        path = key.split(".")
        d = m.d
        fine = True
        for k in path[:-1]:
            d = d.get(k) if isinstance(d, dict) else None
            if d is None:
                break
            if not isinstance(d, dict):
                fine = False
        if not fine or isinstance(decode(val), (dict, Other)):
            continue
        lst += [key, val]
    if rng.random() < .05:
        lst.append("A")
    given = tuple(lst) if rng.random() < .2 else list(lst)
    keep = copy.deepcopy(given)
    ctx.log("merge_from_list", repr(lst)[:600])
    outcome(ctx, cfg, m, lambda: cfg.merge_from_list(given), lambda: m.merge_list(lst), "list")
    ctx.ok("source-untouched", M.same(given, keep), "override list changed")
    for v in given:
        clobber(v)
    ctx.ok("source-not-shared", M.same(M.plain(cfg), m.d), lambda: "changing the override values later changed the tree: %r vs %r" % (M.plain(cfg), m.d))


def histories(ctx, bad):
    cfg, m = build(ctx)
    register(ctx, cfg, m)
    ctx.set(tree=m.d, deprecated=sorted(m.dep), renamed=sorted(m.ren), new_allowed=sorted(m.allowed))
    base = os.environ.get("TMPDIR", "/tmp")
    tmp = tempfile.mkdtemp(prefix="cfg", dir=base)
    try:
        for _ in range(int(ctx.rng.integers(1, 6))):
            k = ctx.rng.integers(0, 3)
            if k == 0:
                step_other(ctx, cfg, m, bad)
            elif k == 1:
                step_file(ctx, cfg, m, bad, tmp)
            else:
                step_list(ctx, cfg, m, bad)
            if ctx.violations:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def valid(ctx):
    histories(ctx, 0.0)


def hostile(ctx):
    histories(ctx, 0.25)


def single(ctx):
    """one entry, every pair of old and new leaf types, through the three routes"""
    from gradslam.config import CfgNode
    rng = ctx.rng
    kinds = ["int", "float", "bool", "str", "list", "tuple", "tree"]
    i = ctx.index
    a, b = kinds[i % 7], kinds[(i // 7) % 7]
    depth = int(rng.integers(0, 3))
    path = tuple("N%d" % j for j in range(depth)) + ("leaf",)

    def nest(v):
        for k in reversed(path):
            v = {k: v}
        v["other"] = 1
        for j in range(depth):
            M.get(v, path[:j + 1])["sib"] = [j]
        return v
    val = lambda k: {"x": 1} if k == "tree" else (M.leaf(rng, k, False))
    old, new = val(a), val(b)
    if b == "str" and rng.random() < .5:
        new = str(rng.choice(M.LIT[:6] + M.LIT[7:]))
    for route in ("other", "list"):
        m = Model(nest(copy.deepcopy(old)))
        cfg = CfgNode(m.d)
        src = {}
        d = src
        for k in path[:-1]:
            d[k] = {}
            d = d[k]
        d[path[-1]] = new
        if route == "other":
            outcome(ctx, cfg, m, lambda: cfg.merge_from_other_cfg(CfgNode(src)), lambda: m.merge(src), "single-other:%s>%s" % (a, b))
        elif not isinstance(decode(new), (dict, Other)) and b != "tree":
            outcome(ctx, cfg, m, lambda: cfg.merge_from_list([".".join(path), new]), lambda: m.merge_list([".".join(path), new]), "single-list:%s>%s" % (a, b))


CHECK = Check("C20", [
    Family("valid", valid, 700, 15000),
    Family("hostile", hostile, 700, 15000),
    Family("single", single, 490, 4900),
], require=["merge-accepted", "merge-rejected", "merged-values", "rejected-merge-corrupts-nothing", "source-untouched", "source-not-shared", "register-twice-refused", "accepted:other_cfg", "accepted:list", "accepted:file.py", "accepted:file.yaml",
            "rejected:other_cfg:KeyError", "rejected:other_cfg:ValueError", "rejected:list:AssertionError", "rejected:list:ValueError", "rejected:list:KeyError"],
    rule="case = one history of merges into one tree; distinct = (route, outcome, tree size, flags)",
    assumptions=["keys without dots; override values are not dicts; deprecated keys are absent from the tree", "string values count as what literal_eval makes of them, as _decode_cfg_value documents"])
