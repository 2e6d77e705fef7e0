"""C21: freezing and cloning of configurations; random histories against a model of the tree and its flags."""
import copy
import logging
import os
import pickle
import tempfile

from vlib import cfgmodel as M
from vlib.core import Check, Family

logging.getLogger("gradslam").setLevel(logging.CRITICAL)
KEYS = ["A", "B", "LR", "NUM_ITERS", "name", "model", "x1", "_under", "items_", "DATA"]


class Node:
    """model of one node: children (Node or leaf), frozen, new_allowed"""

    def __init__(self, d=None, allowed=False):
        self.kids = {k: Node(v) if isinstance(v, dict) else copy.deepcopy(v) for k, v in (d or {}).items()}
        self.frozen, self.allowed = False, allowed
        self.dep, self.ren = set(), set()

    def freeze(self, on):
        self.frozen = on
        for v in self.kids.values():
            if isinstance(v, Node):
                v.freeze(on)

    def plain(self):
        return {k: v.plain() if isinstance(v, Node) else v for k, v in self.kids.items()}

    def clone(self):
        return copy.deepcopy(self)


def pairs(cfg, m):
    """(real node, model node, path), both trees walked together"""
    out = [(cfg, m, ())]
    for k, v in m.kids.items():
        if isinstance(v, Node):
            out += [(a, b, (k,) + p) for a, b, p in pairs(dict.__getitem__(cfg, k), v)]
    return out


def compare(ctx, cfg, m, what):
    from gradslam.config import CfgNode
    ok = ctx.ok("tree-as-modelled", M.same(M.plain(cfg), m.plain()), lambda: "%s: tree %r, model %r" % (what, M.plain(cfg), m.plain()))
    if not ok:
        return False
    for real, mod, p in pairs(cfg, m):
        ok &= ctx.ok("nodes-are-cfgnodes", isinstance(real, CfgNode), "%s: %s is a %s" % (what, p, type(real)))
        if not ok:
            return False
        ok &= ctx.ok("frozen-flag", real.is_frozen() is mod.frozen, "%s: node %s frozen=%r, expected %r" % (what, p, real.is_frozen(), mod.frozen))
        ok &= ctx.ok("new-allowed-flag", bool(real.is_new_allowed()) == mod.allowed, "%s: node %s new_allowed=%r" % (what, p, real.is_new_allowed()))
    for k in mod_keys(m):
        ok &= ctx.ok("registered-keys", cfg.key_is_deprecated(k) == (k in m.dep) and cfg.key_is_renamed(k) == (k in m.ren), "%s: registration of %s" % (what, k))
    return ok


def mod_keys(m):
    return ["OLD0", "OLD1", "DATA.OLD0"]


def history(ctx):
    from gradslam.config import CfgNode
    rng = ctx.rng
    d = M.tree(rng, int(rng.integers(1, 5)), 6, False, KEYS)
    allowed = bool(rng.random() < .3)
    trees = [(CfgNode(d, new_allowed=allowed), Node(d, allowed))]
    ctx.set(tree=d, new_allowed=allowed)
    for _step in range(int(rng.integers(3, 14))):
        ti = int(rng.integers(0, len(trees)))
        cfg, m = trees[ti]
        ps = pairs(cfg, m)
        real, mod, path = ps[int(rng.integers(0, len(ps)))]
        if rng.random() < .4:
            real, mod, path = cfg, m, ()
        op = str(rng.choice(["freeze", "defrost", "assign", "assign_new", "assign_tree", "assign_bad", "merge", "merge_list", "merge_file", "clone", "register", "internal", "read", "merge_new"],
                            p=[.14, .08, .12, .07, .07, .04, .1, .1, .03, .1, .05, .02, .04, .04]))
        ctx.log("tree", ti, op, path)
        if op in ("freeze", "defrost"):
            getattr(real, op)()
            mod.freeze(op == "freeze")
        elif op in ("assign", "assign_new", "assign_tree", "assign_bad"):
            leaves = [k for k in mod.kids]
            k = str(rng.choice(leaves)) if leaves and op == "assign" else (str(rng.choice(KEYS)) if op != "assign_new" else "new%d" % rng.integers(0, 5))
            v = M.leaf(rng, None, False) if op in ("assign", "assign_new") else None
            sub, sd = None, None
            if op == "assign_tree":
                sd = M.tree(rng, 2, 4, False, KEYS)
                al, fz = bool(rng.random() < .4), bool(rng.random() < .3)
                v, sub = CfgNode(sd, new_allowed=al), Node(sd, al)
                if fz:
                    v.freeze()
                    sub.freeze(True)
            if op == "assign_bad":
                v = rng.choice([None, 1j, b"x", {1, 2}], 1)[0] if rng.random() < .7 else {"a": 1}
                want = (AttributeError,) if mod.frozen else (AssertionError,)
                ctx.raises("assignment-refused", want, lambda: setattr(real, k, v), "%s.%s = %r, frozen=%s" % (path, k, v, mod.frozen))
            elif mod.frozen:
                ctx.raises("assignment-refused", (AttributeError,), lambda: setattr(real, k, v), "frozen %s.%s = %r" % (path, k, v))
                ctx.count("refused:depth%d" % len(path))
            else:
                setattr(real, k, v)
                mod.kids[k] = sub if sub is not None else copy.deepcopy(v)
                ctx.ok("assigned-value-read-back", M.same(getattr(real, k), v) and (sub is None or getattr(real, k) is v), "%s.%s" % (path, k))
                ctx.count("assigned:depth%d" % len(path))
        elif op in ("merge", "merge_list", "merge_file"):
            # one override of an existing leaf, somewhere below this node
            leaves = [(p, v) for p, v in M.paths(mod.plain()) if not isinstance(v, dict)]
            if not leaves:
                continue
            p, old = leaves[int(rng.integers(0, len(leaves)))]
            v = M.leaf(rng, {int: "int", float: "float", bool: "bool", str: "str", list: "list", tuple: "tuple"}[type(old)], False)
            nodes = [mod]
            for k in p[:-1]:
                nodes.append(nodes[-1].kids[k])
            if op == "merge_list":
                do, stop = (lambda: real.merge_from_list([".".join(p), v])), nodes[-1].frozen
            else:
                src = v
                for k in reversed(p):
                    src = {k: src}
                if op == "merge":
                    other = CfgNode(src)
                    do = lambda: real.merge_from_other_cfg(other)
                else:
                    fd, name = tempfile.mkstemp(suffix=".py", prefix="cfg")
                    with os.fdopen(fd, "w") as f:
                        f.write("inf = float('inf')\ncfg = %r\n" % (src,))
                    do = lambda: real.merge_from_file(name)
                stop = any(n.frozen for n in nodes)
            # entries of a thawed node inside a frozen parent may or may not be reachable by a merge from above
            if stop and op != "merge_list" and not nodes[-1].frozen:
                if op == "merge_file":
                    os.unlink(name)
                continue
            if stop:
                ctx.raises("merge-refused", (AttributeError,), do, "%s of %s.%s with frozen node" % (op, path, p))
                ctx.count("merge-refused:" + op)
            else:
                do()
                nodes[-1].kids[p[-1]] = copy.deepcopy(v)
                ctx.count("merged:" + op)
            if op == "merge_file":
                os.unlink(name)
        elif op == "merge_new":
            # a key nobody has yet, for a node that accepts new keys, somewhere below this node
            below = [(a, q) for _, a, q in pairs(real, mod) if a.allowed]
            if not below:
                continue
            dst, q = below[int(rng.integers(0, len(below)))]
            k = next(x for x in ("fresh%d" % i for i in range(99)) if x not in dst.kids)
            v = M.leaf(rng, None, False)
            src = {k: v}
            for x in reversed(q):
                src = {x: src}
            other = CfgNode(src)
            chain = [mod]
            for x in q:
                chain.append(chain[-1].kids[x])
            if dst.frozen:
                ctx.raises("merge-refused", (AttributeError,), lambda: real.merge_from_other_cfg(other), "new key for frozen %s" % (path + q,))
                ctx.count("merge-refused:merge_new")
            elif not any(n.frozen for n in chain):
                real.merge_from_other_cfg(other)
                dst.kids[k] = copy.deepcopy(v)
                ctx.count("merged:merge_new")
        elif op == "clone":
            how = str(rng.choice(["clone", "clone", "deepcopy", "pickle"]))
            new = real.clone() if how == "clone" else copy.deepcopy(real) if how == "deepcopy" else pickle.loads(pickle.dumps(real))
            nm = mod.clone()
            ctx.ok("clone-shares-no-node", not ({id(x) for x in M.all_nodes(new)} & {id(x) for x in M.all_nodes(cfg)}), "clone shares nodes with its original")
            shared = {id(v) for n in M.all_nodes(new) for v in n.values() if isinstance(v, list)} & {id(v) for n in M.all_nodes(cfg) for v in n.values() if isinstance(v, list)}
            ctx.ok("clone-shares-no-node", not shared, "clone shares list values with its original")
            if not compare(ctx, new, nm, "clone"):
                return
            if len(trees) < 4:
                trees.append((new, nm))
            ctx.count("cloned:frozen=%s" % mod.frozen)
        elif op == "register":
            k = str(rng.choice(mod_keys(m)))
            if k not in m.dep and k not in m.ren:
                if rng.random() < .5:
                    cfg.register_deprecated_key(k)
                    m.dep.add(k)
                else:
                    cfg.register_renamed_key(k, "NEW")
                    m.ren.add(k)
        elif op == "internal":
            name = str(rng.choice(["__immutable__", "__deprecated_keys__", "__renamed_keys__", "__new_allowed__"]))
            ctx.raises("internal-state-protected", (AttributeError, AssertionError), lambda: setattr(real, name, False), name)
        elif op == "read":
            ctx.raises("missing-attribute", (AttributeError,), lambda: getattr(real, "no_such_key"), "reading an absent key")
            for k, v in mod.kids.items():
                ctx.ok("assigned-value-read-back", getattr(real, k) is real[k], "attribute and item of %s differ" % k)
        ctx.state(op, len(path), mod.frozen, mod.allowed, len(trees), len(ps))
        # every tree, not only the one touched: clones are independent
        for j, (c, mm) in enumerate(trees):
            if not compare(ctx, c, mm, "after %s on tree %d at %s: tree %d" % (op, ti, path, j)):
                return


def mutable_values(ctx):
    """changing list leaves of a clone, of the dict a tree was built from, or of an original never shows elsewhere"""
    from gradslam.config import CfgNode
    rng = ctx.rng
    d = {"L": [1, [2, 3]], "S": {"L": [[4], 5], "T": {"L": [M.leaf(rng, "list", False)]}}, "t": ([1], 2)}
    keep = copy.deepcopy(d)
    a = CfgNode(d)
    if rng.random() < .5:
        a.freeze()
    b = a.clone()
    c = CfgNode(a)
    ctx.ok("constructor-copies", not c.is_frozen() and not c.S.is_frozen() and not c.S.T.is_frozen(), "tree built from a frozen tree is frozen")
    for name, x, others in (("dict", d, (a, b, c)), ("original", a, (b, c)), ("clone", b, (a, c)), ("copy", c, (a, b))):
        was = [M.snapshot(o) for o in others]
        x["L"][1].append(9)
        x["S"]["L"][0].append(9)
        x["S"]["T"]["L"].append(9)
        x["t"][0].append(9)
        for o, w in zip(others, was):
            ctx.ok("no-shared-values", M.same(M.plain(o), w), "changing a list inside the %s changed another tree" % name)
    ctx.ok("constructor-copies", not M.same(d, keep), "")
    ctx.state("mutable", a.is_frozen(), repr(keep["S"]["T"]))


CHECK = Check("C21", [
    Family("history", history, 1500, 30000),
    Family("mutable_values", mutable_values, 40, 400),
], require=["tree-as-modelled", "frozen-flag", "new-allowed-flag", "assignment-refused", "merge-refused", "clone-shares-no-node", "no-shared-values", "assigned-value-read-back", "internal-state-protected", "registered-keys",
            "refused:depth0", "refused:depth1", "refused:depth2", "merge-refused:merge", "merge-refused:merge_list", "merge-refused:merge_file", "merge-refused:merge_new", "merged:merge_new", "cloned:frozen=True"],
    rule="case = one history over a tree and its clones; distinct = (operation, depth, frozen, flags, trees)",
    assumptions=["writes through the dict interface (cfg['A'] = ...) are outside the freeze guarantee: the class documents attributes"])
