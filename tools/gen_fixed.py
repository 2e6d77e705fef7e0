"""Writes the 'fixed' list of known_findings.json from the fix: commits of /repo (and says which ones have no entry)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject prefix of the commit -> (property, what failed)
PROPS = json.load(open(os.path.join(HERE, "tools", "fixed.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "4edc904..HEAD"], capture_output=True, text=True).stdout.splitlines()
out = []
for line in log:
    h, subj = line.split(" ", 1)
    if h not in PROPS:
        print("no entry for", line)
        continue
    for p in PROPS[h]["properties"]:
        out.append("fixed: property=%s %s %s" % (p, h, PROPS[h].get("what") or subj[5:]))
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
print(len(out), "fixed entries")
