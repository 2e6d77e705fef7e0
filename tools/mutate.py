"""Mutation campaign: how many small changes of gradslam do the monitors notice?

usage: mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S] [--jobs 8]
Every mutant is one AST edit; it is run (fail fast) against the checks whose workloads execute
its line (measured on the unchanged tree), cheapest first.  Survivors are to be read by hand.
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ALL = ["C%02d" % i for i in range(1, 33)]
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.MatMult: [ast.Mult], ast.Pow: [ast.Mult],
       ast.Mod: [ast.Add], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def mutants(src, pick=None):
    """the number of candidates (pick None), or the mutant of candidate number pick: (line, end, description, new source, text)"""
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[id(c)] = n

    def infn(n):
        while id(n) in par:
            n = par[id(n)]
            if isinstance(n, ast.FunctionDef):
                return True
        return False

    def skip(n):
        while id(n) in par:
            p = par[id(n)]
            if isinstance(p, (ast.Raise, ast.JoinedStr)):
                return True
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("format", "warn", "join"):
                return True
            if isinstance(p, ast.Assign) and any(isinstance(t, ast.Name) and "msg" in t.id for t in p.targets):
                return True
            if isinstance(p, (ast.arg, ast.AnnAssign)) or (isinstance(p, ast.FunctionDef) and n is p.returns):
                return True
            n = p
        return False
    cands = []
    nodes = [n for n in ast.walk(tree) if infn(n) and not skip(n)]
    for n in nodes:
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                cands.append((n, "cmp->%s" % o.__name__, lambda n, o=o: n.ops.__setitem__(0, o())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for o in BIN.get(type(n.op), []):
                cands.append((n, "op->%s" % o.__name__, lambda n, o=o: setattr(n, "op", o())))
        elif isinstance(n, ast.BoolOp):
            o = ast.Or if isinstance(n.op, ast.And) else ast.And
            cands.append((n, "bool->%s" % o.__name__, lambda n, o=o: setattr(n, "op", o())))
            for k in range(len(n.values)):
                cands.append((n, "drop operand %d" % k, lambda n, k=k: n.values.pop(k)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            cands.append((n, "drop unary", None))
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            if isinstance(n.value, bool):
                cands.append((n, "not", lambda n: setattr(n, "value", not n.value)))
            elif isinstance(n.value, int):
                for v in {n.value + 1, n.value - 1}:
                    cands.append((n, "const %d->%d" % (n.value, v), lambda n, v=v: setattr(n, "value", v)))
            elif isinstance(n.value, float):
                for v in {n.value * 1.1 + (n.value == 0) * .01, n.value * 100 if n.value < 1e-3 else n.value + 1}:
                    cands.append((n, "const %g->%g" % (n.value, v), lambda n, v=v: setattr(n, "value", v)))
            elif n.value is None:
                pass
            elif isinstance(n.value, str) and n.value and isinstance(par[id(n)], (ast.Compare, ast.Subscript)):
                cands.append((n, "str", lambda n: setattr(n, "value", n.value + "x")))
        elif isinstance(n, ast.If):
            cands.append((n, "if True", lambda n: setattr(n, "test", ast.Constant(True))))
            cands.append((n, "if False", lambda n: setattr(n, "test", ast.Constant(False))))
        elif isinstance(n, ast.IfExp):
            cands.append((n, "ifexp body", "BODY"))
            cands.append((n, "ifexp orelse", "ORELSE"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clone", "detach", "contiguous", "clamp", "abs", "copy", "deepcopy", "squeeze", "float", "sqrt", "double", "round", "to", "type_as", "clamp_", "min", "max"):
            cands.append((n, "drop .%s()" % n.func.attr, "RECV"))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if f in ("isinstance", "issubclass", "getattr", "setattr", "hasattr", "super"):
                continue
            cands.append((n, "swap args", lambda n: n.args.__setitem__(slice(0, 2), n.args[:2][::-1])))
        if isinstance(n, ast.Call) and n.keywords:
            for k, kw in enumerate(n.keywords):
                if kw.arg not in ("dtype", "device", None):
                    cands.append((n, "drop kw %s" % kw.arg, lambda n, k=k: n.keywords.pop(k)))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and par.get(id(n)).__class__ is ast.FunctionDef:
                continue      # deleting a local's only definition just crashes
            cands.append((n, "delete stmt", "DEL"))
        if isinstance(n, ast.Slice):
            for a in ("lower", "upper"):
                if getattr(n, a) is not None:
                    cands.append((n, "drop slice %s" % a, lambda n, a=a: setattr(n, a, None)))
    index = {id(n): k for k, n in enumerate(ast.walk(tree))}
    if pick is None:
        return len(cands)
    for n, d, fn in [cands[pick]]:
        t2 = copy.deepcopy(tree)
        m = list(ast.walk(t2))[index[id(n)]]
        if fn in ("BODY", "ORELSE", "RECV", "DEL") or fn is None:
            new = {"BODY": lambda: m.body, "ORELSE": lambda: m.orelse, "RECV": lambda: m.func.value, "DEL": lambda: ast.Pass(), None: lambda: m.operand}[fn]()

            class T(ast.NodeTransformer):
                def visit(self, x):
                    return new if x is m else self.generic_visit(x)
            t2 = T().visit(t2)
        else:
            fn(m)
        ast.fix_missing_locations(t2)
        try:
            s = ast.unparse(t2)
            compile(s, "x", "exec")
        except Exception:
            return None
        st, fn = n, n
        while not isinstance(st, ast.stmt):
            st = par[id(st)]
        while not isinstance(fn, ast.FunctionDef):
            fn = par[id(fn)]
        span = set(range(st.lineno, (st.body[0].lineno if hasattr(st, "body") else st.end_lineno + 1)))
        return n.lineno, (span, set(range(fn.lineno, fn.end_lineno + 1))), d, s, ast.unparse(n)[:110]


def main():
    a = sys.argv
    out = a[1]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    files = opt("--files", "").split(",") if "--files" in a else [f for f in subprocess.run(["git", "-C", REPO, "ls-files", "gradslam"], capture_output=True, text=True).stdout.split() if f.endswith(".py")]
    seed, sample, jobs = int(opt("--seed", "0")), int(opt("--sample", "0")), int(opt("--jobs", "8"))
    tmp = tempfile.mkdtemp(prefix="mutate-")
    lines, cost = {}, {}

    def base(pid):
        f = os.path.join(tmp, pid + ".lines")
        t = time.time()
        r = subprocess.run([os.path.join(HERE, "check"), pid, "--procs", "2"], cwd=HERE, env=dict(os.environ, VERIF_LINES=f, VERIF_EVIDENCE_DIR=os.path.join(tmp, "ev0")), capture_output=True, text=True)
        assert r.returncode == 0, r.stdout
        lines[pid], cost[pid] = {k: set(v) for k, v in json.load(open(f)).items()}, time.time() - t
    with ThreadPoolExecutor(jobs // 2) as ex:
        list(ex.map(base, ALL))
    todo = []
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        if not src.strip():
            continue
        for k in range(mutants(src)):
            todo.append((f, k))
    random.Random(seed).shuffle(todo)
    if sample:
        todo = todo[:sample]
    print(len(todo), "mutants", flush=True)
    fo = open(out, "a")

    def one(k):
        f, n = todo[k]
        m = mutants(open(os.path.join(REPO, f)).read(), n)
        if m is None:
            return
        l0, l1, d, s, txt = m
        rel = f[len("gradslam/"):]
        focus = lambda p: len(lines[p].get(rel, ())) / sum(map(len, lines[p].values()))
        pids = []
        for rng in l1 + (set(range(1, 10 ** 5)),):
            pids = pids or [p for p in ALL if lines[p].get(rel, set()) & rng]
        pids.sort(key=lambda p: (-focus(p), cost[p]))
        rec = {"file": f, "line": l0, "what": d, "text": txt, "checks": pids}
        w = tempfile.mkdtemp(prefix="m%d-" % k, dir=tmp)
        try:
            shutil.copytree(os.path.join(REPO, "gradslam"), os.path.join(w, "gradslam"), ignore=shutil.ignore_patterns("__pycache__"))
            for e in os.listdir(REPO):
                if e not in ("gradslam", ".git"):
                    os.symlink(os.path.join(REPO, e), os.path.join(w, e))
            open(os.path.join(w, f), "w").write(s)
            rec["killed"] = None
            for p in pids:
                r = subprocess.run([os.path.join(HERE, "check"), p, "--procs", "1"], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE_DIR=os.path.join(w, "ev"), VERIF_FAILFAST="1", VERIF_SCALE=os.environ.get("VERIF_SCALE", "1"), VERIF_CASE_LIMIT="20", VERIF_BUDGET_S="150", VERIF_WATCHDOG_S="200"))
                if r.returncode:
                    v = [x.strip()[:140] for x in r.stdout.splitlines() if "violated [" in x]
                    rec["killed"] = [p, r.returncode, v[:1] or r.stdout[-200:]]
                    break
        finally:
            shutil.rmtree(w, ignore_errors=True)
        fo.write(json.dumps(rec) + "\n"); fo.flush()
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, range(len(todo))))
    shutil.rmtree(tmp, ignore_errors=True)


main()
