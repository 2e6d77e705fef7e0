"""Runner for the runtime monitors.

A check is a list of *families*.  A family is a workload generator plus the monitors that
watch it: ``fn(ctx)`` drives the real code once, from the random streams ``ctx.rng`` /
``ctx.tgen`` (derived from VERIF_SEED, family and case number), and reports every oracle
evaluation through ``ctx.ok`` / ``ctx.close`` / ``ctx.eq``.  Verdicts are three valued:
violated (exit 1), held on what was observed (exit 0), inconclusive (exit 3: a monitor that
decides the property was never reached, or a case ran into the watchdog).
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np

from . import cover

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "known_findings.json")


class Violation(Exception):
    """Raised by ctx.fail(..., stop=True) to end a case early."""


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The generated case does not meet the preconditions of the oracle (counted)."""


def case_seed(seed, fam, i):
    return zlib.crc32(("%d|%s|%d" % (seed, fam, i)).encode()) & 0x7FFFFFFF


def summarize(x, depth=0):
    import torch
    if isinstance(x, torch.Tensor):
        return "tensor%s:%s" % (list(x.shape), str(x.dtype).replace("torch.", ""))
    if isinstance(x, np.ndarray):
        return "array%s:%s" % (list(x.shape), x.dtype)
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


class Ctx:
    def __init__(self, pid, fam, index, seed, tier):
        import torch
        self.pid, self.fam, self.index, self.tier = pid, fam, index, tier
        self.seed = case_seed(seed, fam, index)
        self.rng = np.random.default_rng(self.seed)
        self.tgen = torch.Generator().manual_seed(self.seed)
        torch.manual_seed(self.seed)
        np.random.seed(self.seed % (2 ** 31))
        self.counts = {}
        self.states = set()
        self.violations = []
        self.trace = []
        self.desc = {}

    # --- recording -----------------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, *sig):
        self.states.add(hashlib.md5(repr((self.fam,) + sig).encode()).hexdigest()[:12])

    def log(self, *a):
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(summarize(x)) if not isinstance(x, str) else x for x in a))

    def set(self, **kw):
        for k, v in kw.items():
            self.desc[k] = summarize(v)

    # --- oracles -------------------------------------------------------------------
    def fail(self, monitor, msg, key=None, stop=False):
        self.violations.append({
            "monitor": monitor, "key": key or (self.fam + "/" + monitor), "msg": str(msg)[:3000],
            "family": self.fam, "case": self.index, "case_seed": self.seed,
            "desc": dict(self.desc), "trace": list(self.trace[-60:])})
        if stop:
            raise Violation()

    def ok(self, monitor, cond, msg="", key=None):
        self.count("monitor:" + monitor)
        if not bool(cond):
            self.fail(monitor, msg() if callable(msg) else msg, key)
            return False
        return True

    def close(self, monitor, got, want, rtol=1e-5, atol=1e-6, msg="", key=None):
        import torch
        self.count("monitor:" + monitor)
        try:
            g = got.detach().cpu().double().numpy() if isinstance(got, torch.Tensor) else np.asarray(got, dtype=np.float64)
            w = want.detach().cpu().double().numpy() if isinstance(want, torch.Tensor) else np.asarray(want, dtype=np.float64)
        except Exception as e:
            self.fail(monitor, "%s: not comparable: got %s want %s (%r)" % (msg, summarize(got), summarize(want), e), key)
            return False
        if g.shape != w.shape:
            self.fail(monitor, "%s: shape %s, expected %s" % (msg, g.shape, w.shape), key)
            return False
        if g.size == 0:
            return True
        bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        bad &= ~((g == w) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            self.fail(monitor, "%s: %d of %d entries differ; first at %s: got %r expected %r (shape %s)"
                      % (msg, int(bad.sum()), g.size, i, float(g[i]), float(w[i]), g.shape), key)
            return False
        return True

    def eq(self, monitor, got, want, msg="", key=None):
        """Exact equality of arrays / tensors / plain values."""
        import torch
        if isinstance(got, torch.Tensor) or isinstance(want, torch.Tensor) or isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
            return self.close(monitor, got, want, rtol=0, atol=0, msg=msg, key=key)
        return self.ok(monitor, got == want, lambda: "%s: got %s expected %s" % (msg, summarize(got), summarize(want)), key)

    def raises(self, monitor, excs, fn, msg="", key=None):
        """fn() must raise one of excs (a clean rejection)."""
        self.count("monitor:" + monitor)
        try:
            r = fn()
        except excs:
            return True
        except CaseTimeout:
            raise
        except Exception as e:
            self.fail(monitor, "%s: raised %s(%s), expected %s" % (
                msg, type(e).__name__, str(e)[:200], "/".join(x.__name__ for x in excs)), key)
            return False
        self.fail(monitor, "%s: accepted (returned %s), expected %s" % (
            msg, summarize(r), "/".join(x.__name__ for x in excs)), key)
        return False


class Family:
    def __init__(self, name, fn, quick, thorough, heavy=1.0):
        self.name, self.fn, self.quick, self.thorough, self.heavy = name, fn, quick, thorough, heavy


class Check:
    def __init__(self, pid, families, require=(), rule="", assumptions=()):
        self.pid, self.families, self.require = pid, families, list(require)
        self.rule, self.assumptions = rule, list(assumptions)


# the case counts written in the checks times this, so that the quick tier takes 10-60 s on 8 cores, the thorough one 10-50 minutes
QUICK_SCALE = {p: int(n) for p, n in (x.split(":") for x in (
    "C01:20 C02:20 C03:20 C04:18 C05:30 C06:25 C07:25 C08:25 C09:8 C10:7 C11:6 C12:18 C13:18 C15:5 C17:6 C18:20 C19:6 C20:18 C21:25 C22:18 "
    "C23:7 C24:7 C25:20 C26:25 C27:5 C30:5 C31:4 C32:6").split())}
THOROUGH_SCALE = {p: int(n) for p, n in (x.split(":") for x in (
    "C01:20 C02:20 C03:20 C04:15 C05:20 C06:20 C07:20 C08:20 C09:10 C10:8 C11:8 C12:15 C13:15 C15:5 C17:8 C18:20 C19:8 C20:20 C21:20 C22:15 "
    "C23:8 C24:8 C25:20 C26:20 C27:5 C28:4 C30:3 C31:1 C32:4").split())}

# ------------------------------------------------------------------------------- workers
_CHECK = None
_SEED = 1
_TIER = "quick"
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))    # stop at the first violation (tools/mutate.py)
CASE_LIMIT = int(os.environ.get("VERIF_CASE_LIMIT", "240"))


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(job):
    fi, i = job
    fam = _CHECK.families[fi]
    ctx = Ctx(_CHECK.pid, fam.name, i, _SEED, _TIER)
    status = "ran"
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        fam.fn(ctx)
    except Skip:
        status = "skipped"
    except Violation:
        pass
    except CaseTimeout:
        status = "timeout"
    except MemoryError:
        status = "memory"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb]
        site = "harness"
        for f in tb:
            if "/gradslam/" in f.filename and "/verif/" not in f.filename:
                site = os.path.basename(f.filename) + ":" + f.name
        ctx.count("monitor:no-unexpected-exception")
        ctx.fail("no-unexpected-exception", "%s: %s\n%s" % (type(e).__name__, e, "\n".join(frames[-8:])),
                 key="%s/exception/%s/%s" % (fam.name, type(e).__name__, site))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return (fi, i, status, ctx.counts, ctx.states, ctx.violations, ctx.desc, ctx.trace[:12], time.time() - t0, cover.take())


def run_chunk(jobs):
    return [run_case(j) for j in jobs]


def _worker_init():
    import torch
    torch.set_num_threads(1)


def boot_repo():
    from . import boot
    return boot.REPO


def load_known(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == pid]


def run(pid, tier, seed, replay=None, only=None, procs=None):
    global _CHECK, _SEED, _TIER
    t_start = time.time()
    _SEED, _TIER = seed, tier
    os.makedirs(EVID, exist_ok=True)
    try:
        from . import boot
        boot.load()
        cover.start(boot.REPO)
        mod = importlib.import_module("checks." + pid.lower())
    except Exception as e:
        # The workload cannot even be loaded: on a tree whose package does not import, the
        # behaviour the property describes is not there.
        tb = traceback.format_exc()
        if "/gradslam/" in tb.replace("/verif/", "").split("checks/")[-1] or isinstance(e, (ImportError, AttributeError)):
            path = os.path.join(EVID, "replay-%s-import.json" % pid)
            json.dump({"property": pid, "import_error": tb}, open(path, "w"), indent=1)
            write_evidence(pid, tier, seed, {"evaluations": 0, "distinct_nontrivial": 0, "rule": "package failed to import", "samples": [tb[-800:]]}, [], time.time() - t_start, 1)
            print(tb)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        raise
    chk = mod.CHECK
    _CHECK = chk
    if replay:
        rep = json.load(open(replay))
        _SEED, _TIER = rep["seed"], rep["tier"]
        fi = [f.name for f in chk.families].index(rep["family"])
        res = [run_case((fi, rep["case"]))]
        for v in res[0][5]:
            print(json.dumps(v, indent=1))
        print("replay: %d violation(s)" % len(res[0][5]))
        return 1 if res[0][5] else 0

    jobs = []
    for fi, f in enumerate(chk.families):
        if only and f.name not in only:
            continue
        n = f.quick if tier == "quick" else f.thorough
        n = max(1, int(n * float(os.environ.get("VERIF_SCALE", QUICK_SCALE.get(pid, 3) if tier == "quick" else THOROUGH_SCALE.get(pid, 3)))))
        jobs.append([(fi, i) for i in range(n)])
    # interleave families so that a time budget cuts all of them evenly
    order = []
    longest = max(len(j) for j in jobs)
    for j in jobs:
        for (fi, i) in j:
            order.append(((i + 0.5) / len(j), fi, i))
    order.sort()
    order = [(fi, i) for _, fi, i in order]
    budget = float(os.environ.get("VERIF_BUDGET_S", "240" if tier == "quick" else "3000"))
    procs = procs or int(os.environ.get("VERIF_PROCS", "6"))
    results = []
    cut = 0
    if procs <= 1:
        for job in order:
            if time.time() - t_start > budget:
                cut += 1
                continue
            results.append(run_case(job))
            if FAILFAST and results[-1][5]:
                break
    else:
        ctxm = mp.get_context("fork")
        sys.stdout.flush()
        with ctxm.Pool(procs, initializer=_worker_init, maxtasksperchild=400) as pool:
            size = max(1, min(8, len(order) // (procs * 8)))
            it = pool.imap_unordered(run_chunk, [order[k:k + size] for k in range(0, len(order), size)])
            done = 0
            while done < len(order):
                left = budget - (time.time() - t_start)
                try:
                    got = it.next(timeout=max(1.0, left))
                    results += got
                    done += len(got)
                    if FAILFAST and any(r[5] for r in got):
                        pool.terminate()
                        break
                except StopIteration:
                    break
                except mp.TimeoutError:
                    cut = len(order) - done
                    pool.terminate()
                    break
                if time.time() - t_start > budget:
                    cut = len(order) - done
                    pool.terminate()
                    break
    results.sort(key=lambda r: (r[0], r[1]))
    return finish(chk, tier, seed, results, cut, len(order), time.time() - t_start, bool(only))


def write_evidence(pid, tier, seed, coverage, assumptions, wall, nviol):
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(wall, 2), "violations": nviol}
    path = os.path.join(EVID, pid + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, path)


def finish(chk, tier, seed, results, cut, planned, wall, partial):
    counts, states, viols, samples = {}, set(), [], []
    fam_cases, fam_time = {}, {}
    timeouts = skipped = 0
    lines = {}
    for fi, i, status, c, s, v, desc, trace, dt, hit in results:
        for f, ls in hit.items():
            lines.setdefault(f, set()).update(ls)
        name = chk.families[fi].name
        fam_time[name] = fam_time.get(name, 0) + dt
        if status == "skipped":
            skipped += 1
        if status in ("timeout", "memory"):
            timeouts += 1
        else:
            fam_cases[name] = fam_cases.get(name, 0) + (status == "ran")
        for k, n in c.items():
            counts[k] = counts.get(k, 0) + n
        states |= s
        viols += v
        if len(samples) < 6 and desc and not any(x["family"] == name for x in samples):
            samples.append({"family": name, "case": i, "inputs": desc, "trace": trace})
    if not samples and results:
        samples = [{"family": chk.families[r[0]].name, "case": r[1]} for r in results[:3]]
    mon = {k[8:]: n for k, n in counts.items() if k.startswith("monitor:")}
    events = {k: n for k, n in counts.items() if not k.startswith("monitor:")}
    evals = sum(mon.values())
    cov = {
        "evaluations": int(sum(fam_cases.values())),
        "distinct_nontrivial": len(states),
        "rule": chk.rule or "one case = one seeded run of a workload on the real code; distinct = distinct signature of the situation the monitors observed",
        "samples": samples or ["none"],
        "oracle_evaluations": int(evals),
        "monitors": mon, "events": events,
        "cases_per_workload": fam_cases,
        "cpu_s_per_workload": {k: round(v, 1) for k, v in fam_time.items()},
        "cases_planned": planned, "cases_cut_by_budget": cut, "cases_skipped_precondition": skipped,
        "cases_inconclusive": timeouts,
    }
    if os.environ.get("VERIF_LINES"):
        json.dump({f: sorted(ls) for f, ls in lines.items()}, open(os.environ["VERIF_LINES"], "w"))
    cov["gradslam_function_lines_executed"] = {}
    for f, ls in sorted(lines.items()):
        ex = cover.executable(os.path.join(boot_repo(), "gradslam", f))
        if ex & ls:
            cov["gradslam_function_lines_executed"][f] = "%d of %d" % (len(ex & ls), len(ex))
    known = load_known(chk.pid)
    hit_known, new = {}, []
    for v in viols:
        m = [k for k in known if v["key"] == k["key"] or (k.get("prefix") and v["key"].startswith(k["key"]))]
        if m:
            hit_known.setdefault(m[0]["key"], v)
        else:
            new.append(v)
    cov["known_findings_observed"] = sorted(hit_known)
    write_evidence(chk.pid, tier, seed, cov, chk.assumptions, wall, len(new))
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (chk.pid, k["what"], "" if k["key"] in hit_known else " (listed; not triggered in this run)"))
    print("%s tier=%s seed=%d: %d cases, %d oracle evaluations, %d distinct situations, %d cut, %d skipped, %.1fs"
          % (chk.pid, tier, seed, sum(fam_cases.values()), evals, len(states), cut, skipped, wall))
    if new:
        seen = {}
        for v in new:
            seen.setdefault(v["key"], []).append(v)
        for key, vs in list(seen.items())[:10]:
            v = vs[0]
            print("  violated [%s] x%d  family=%s case=%d\n    %s" % (key, len(vs), v["family"], v["case"], v["msg"].replace("\n", "\n    ")[:1500]))
        v = new[0]
        path = os.path.join(EVID, "replay-%s.json" % chk.pid)
        with open(path, "w") as f:
            json.dump({"property": chk.pid, "seed": seed, "tier": tier, "family": v["family"], "case": v["case"],
                       "first": v, "all_keys": {k: len(x) for k, x in seen.items()},
                       "rerun": "VERIF_SEED=%d ./check %s --tier %s --replay %s" % (seed, chk.pid, tier, path)}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (chk.pid, path))
        return 1
    missing = [] if partial else [m for m in chk.require if mon.get(m, 0) + events.get(m, 0) == 0]
    missing += [] if partial else ["workload " + f.name for f in chk.families if not fam_cases.get(f.name)]
    if cut > .75 * planned:
        missing.append("most of the planned cases (%d of %d cut by the time budget)" % (cut, planned))
    if missing or timeouts > max(2, 0.02 * len(results)) or not results:
        print("INCONCLUSIVE: %s" % (("never observed: " + ", ".join(missing)) if missing else "%d case(s) hit the watchdog" % timeouts))
        return 3
    return 0
