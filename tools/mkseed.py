"""Plant the bugs described in tools/seeds/*.py into scratch copies, confirm them and store them under seeded/.

usage: mkseed.py [--check] [--tests] [ID ...]
For each spec: copy /repo, apply the edits, demo on the clean copy (must exit 0) and on the
patched one (must fail), stable tests on the patched one (with --tests), and with --check the
monitors of the property against the patched copy.
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = open(os.path.join(HERE, "tools", "seeds", "prelude.py.txt")).read()
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def one(sid, check, tests):
    sp = importlib.util.spec_from_file_location(sid, os.path.join(HERE, "tools/seeds", sid + ".py"))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    out = os.path.join(HERE, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-" + sid + "-")
    msg = [sid, m.PROPERTY]
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(out, "demo.py"), "w").write(PRE + m.DEMO)
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        r = sh(["bash", os.path.join(out, "demo.sh")], repo)
        msg.append("clean=%d" % r.returncode)
        if r.returncode: msg.append(r.stdout[-1500:])
        for f, old, new in m.EDITS:
            p = os.path.join(repo, f); s = open(p).read()
            assert s.count(old) == 1, "%s: %d matches in %s for %r" % (sid, s.count(old), f, old[:80])
            open(p, "w").write(s.replace(old, new))
        d = sh(["git", "diff"], repo).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(out, "demo.sh")], repo)
        msg.append("patched=%d" % r.returncode)
        if r.returncode == 0 or "-v" in sys.argv: msg.append(r.stdout[-600:])
        # every removed line is an original one
        base = sh(["git", "show", "4edc904:" + m.EDITS[0][0]], repo).stdout
        rem = [l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
        allb = "".join(sh(["git", "show", "4edc904:" + f], repo).stdout for f in {e[0] for e in m.EDITS})
        msg.append("orig=%s" % (all(l in allb for l in rem) if rem else "ADD-ONLY"))
        if tests:
            r = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "gradslam_without_open3d", "-p", "no:cacheprovider", "-x", "--maxfail=3", "--timeout=300"]
                   + ["--ignore=tests/" + x for x in "slam/test_fusionutils.py structures/test_pointclouds.py structures/test_utils.py odometry/test_gradicp.py odometry/test_icp.py odometry/test_icputils.py".split()],
                   repo, {"PYTHONPATH": "/opt/vp/harness:" + repo, "OMP_NUM_THREADS": "2"})
            tail = [l for l in r.stdout.splitlines() if l.startswith("FAILED") or " passed" in l]
            msg.append("tests: " + "; ".join(tail))
        if check:
            for pid in ([m.PROPERTY] + list(getattr(m, "ALSO", [])) if check is True else check):
                r = sh([os.path.join(HERE, "check"), pid, "--tier", "quick"], HERE, {"VERIF_REPO": repo, "VERIF_EVIDENCE_DIR": os.path.join(tmp, "ev"), "VERIF_SEED": "1"})
                v = [l.strip() for l in r.stdout.splitlines() if "violated [" in l][:4]
                msg.append("%s exit %d %s" % (pid, r.returncode, v or r.stdout[-300:] if r.returncode else "MISSED"))
    except Exception as e:
        msg.append(repr(e)[:2000])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return " | ".join(msg)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, "tools/seeds/*.py")))
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda s: one(s, "--check" in sys.argv, "--tests" in sys.argv), ids):
            print(r, flush=True)
