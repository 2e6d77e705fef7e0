"""Random configuration trees as plain nested dicts, and comparison with CfgNode trees."""
import copy

WORDS = ["A", "B", "LR", "NUM_ITERS", "name", "model", "x1", "_under", "yes", "NULL", "k-dash", "with space", "é", "UPPER", "lower", "items_", "DATA"]
STR = ["", "foo", "foo/bar", "a b", "ünïcode", "multi\nline", "trail ", " lead", "#hash", "a: b", "- dash", "'quoted'x", "tab\tx", "yes please", "~x", "[open", "{brace", "%percent", "@at", "!bang", "&amp", "*star", "a\\b", "x" * 120,
       "two words " * 20, "…"]
LIT = ["1", "1.5", "True", "None", "[1, 2]", "(1, 2)", "'q'", "null", "true", "on", "2020-01-01", "1e5", "0x10", "~", "1_000", "{'a': 1}", ".5", ".nan", "012", "12:30:45"]


def leaf(rng, kind=None, literal_strings=True):
    kind = kind or str(rng.choice(["int", "float", "bool", "str", "list", "tuple"], p=[.2, .2, .15, .2, .15, .1]))
    if kind == "int":
        return int(rng.choice([0, 1, -1, 7, 10 ** 12, -2 ** 40, int(rng.integers(-1000, 1000))]))
    if kind == "float":
        return float(rng.choice([0.0, 1.0, -0.5, 1e-20, 1e20, 3.141592653589793, 1e5, float("inf"), -1e-7, 123456789.125, float(rng.normal())]))
    if kind == "bool":
        return bool(rng.random() < .5)
    if kind == "str":
        return str(rng.choice(STR + (LIT if literal_strings else [])))
    n = int(rng.integers(0, 4) if rng.random() < .95 else rng.integers(4, 40))
    out = [leaf(rng, str(rng.choice(["int", "float", "bool", "str", "list"] if n < 3 else ["int", "float"]))) for _ in range(n)]
    return tuple(out) if kind == "tuple" else out


def chain(rng, depth, literal_strings=True, keys=None):
    """nodes below nodes, far deeper than usual"""
    k = str(rng.choice(keys or WORDS))
    return {k: chain(rng, depth - 1, literal_strings, keys) if depth > 1 else leaf(rng, None, literal_strings)}


def tree(rng, depth=3, size=5, literal_strings=True, keys=None):
    d = {}
    if depth > 2 and rng.random() < .04:
        d = chain(rng, int(rng.integers(4, 12)), literal_strings, keys)
    elif depth > 2 and rng.random() < .04:
        return {"K%d" % k: leaf(rng, None, literal_strings) for k in rng.permutation(int(rng.integers(10, 60)))}
    for k in rng.choice(keys or WORDS, int(rng.integers(0 if depth < 3 else 1, size)), replace=False):
        d[str(k)] = tree(rng, depth - 1, size, literal_strings, keys) if depth > 1 and rng.random() < .35 else leaf(rng, None, literal_strings)
    return d


def plain(node):
    """CfgNode tree -> nested dict"""
    from gradslam.config import CfgNode
    return {k: plain(v) if isinstance(v, CfgNode) else v for k, v in node.items()}


def same(a, b, lists=False):
    """equal values and equal types, recursively (lists=True: sequences compare as lists)"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], lists) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return (lists or type(a) is type(b)) and len(a) == len(b) and all(same(x, y, lists) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or (a != a and b != b))


def paths(d, pre=()):
    """[(path, value)] of every entry; subtrees included"""
    out = []
    for k, v in d.items():
        out.append((pre + (k,), v))
        if isinstance(v, dict):
            out += paths(v, pre + (k,))
    return out


def get(d, path):
    for k in path:
        d = d[k]
    return d


def put(d, path, v):
    get(d, path[:-1])[path[-1]] = v


def all_nodes(node):
    from gradslam.config import CfgNode
    out = [node]
    for v in node.values():
        if isinstance(v, CfgNode):
            out += all_nodes(v)
    return out


def same_snapshot(node, snap):
    return same(plain(node), snap)


def snapshot(node):
    return copy.deepcopy(plain(node))
