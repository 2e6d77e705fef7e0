"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist in checks/."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
TECH = json.load(open(os.path.join(H, "tools", "techniques.json")))
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")) and i in TECH:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "the monitor for this property is not built yet; the technique applies")})
m = {"version": 1, "setup_cmd": "./check --selftest", "hooks": {"guard": "GRADSLAM_VERIF (unused: every monitor observes public calls from outside, /repo carries no hook)", "enable": "nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Runs offline with /opt/venv/bin/python; gradslam is imported from /repo's working tree; open3d (absent) is replaced by a recording stand-in."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
