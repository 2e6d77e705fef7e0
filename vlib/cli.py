import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--procs", type=int)
    a = ap.parse_args()
    from . import core
    sys.exit(core.run(a.pid, a.tier, a.seed, a.replay, a.only, a.procs))


main()
