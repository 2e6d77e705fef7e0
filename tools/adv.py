"""Adversarial batch: apply each listed edit to its own scratch copy of gradslam and run the check of its property.

usage: adv.py LIST.py [--jobs N] [--only k,k] [--tests]
LIST.py defines BUGS = [(property or "quiet", file under gradslam/, old, new, note), ...] (old must occur once; an edit
may also be a list of (file, old, new)).  "quiet" entries are behaviour-preserving and run against every check.
Nothing is written outside a scratch directory.
"""
import os, runpy, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
opt = lambda k, d: a[a.index(k) + 1] if k in a else d
bugs = runpy.run_path(a[0])["BUGS"]
jobs = int(opt("--jobs", "4"))
only = opt("--only", None)
only = set(map(int, only.split(","))) if only else None
root = tempfile.mkdtemp(prefix="adv-")


def run(k):
    b = bugs[k]
    pid, edits, note = (b[0], [b[1:4]], b[4]) if len(b) == 5 else b
    d = os.path.join(root, str(k))
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "assets", "docs", "examples"))
    try:
        for f, old, new in edits:
            p = os.path.join(d, "gradslam", f)
            s = open(p).read()
            if s.count(old) != 1:
                return k, pid, note, "BAD-EDIT(%d)" % s.count(old), 0, ""
            s = s.replace(old, new)
            compile(s, p, "exec")
            open(p, "w").write(s)
        tests = ""
        if "--tests" in a:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "--deselect", "x", "tests"], cwd=d,
                               env=dict(os.environ, PYTHONPATH=d), capture_output=True, text=True)
            tests = " tests:" + (r.stdout.strip().splitlines() or ["?"])[-1][:60]
        pids = ["C%02d" % i for i in range(1, 33)] if pid == "quiet" else pid.split("+")
        res, msg, t0 = [], "", time.time()
        for q in pids:
            env = dict(os.environ, VERIF_REPO=d, VERIF_SEED=opt("--seed", "1"), VERIF_TIER="quick", VERIF_EVIDENCE_DIR=os.path.join(d, "ev"), VERIF_PROCS=opt("--procs", "3"))
            if pid != "quiet":
                env["VERIF_FAILFAST"] = "1"
            r = subprocess.run([os.path.join(HERE, "check"), q], env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violat" in l.lower()]
            if pid == "quiet":
                if r.returncode or v:
                    res.append("%s:%d" % (q, r.returncode)); msg += " ".join(r.stdout.split())[-300:]
            else:
                res.append("%s:%s" % (q, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode)))
                if r.returncode != 1:
                    msg = " ".join((r.stdout + r.stderr).split())[-160:] if r.returncode else ""
        return k, pid, note, (" ".join(res) or "quiet") + tests, time.time() - t0, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(run, [k for k in range(len(bugs)) if only is None or k in only]):
        print("%3d %-4s %-70s %s %.0fs %s" % (r[0], r[1], r[2][:70], r[3], r[4], r[5]), flush=True)
shutil.rmtree(root, ignore_errors=True)
