"""writes MANIFEST.json from the list of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(HERE, "tools", "claimed.json")))
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
PY = "/opt/venv/bin/python"
T = ("contract-based deductive verification of the real code: contracts over the source of /repo, extracted mechanically on every run, "
     "verification conditions by symbolic execution with loop invariants, discharged by normalisation and z3; failed obligations replayed on the built code")
checks = []
for p, note in sorted(CLAIMED.items()):
    level = "other" if note.startswith("bounded") else "proof"
    checks.append({"property": p, "quick_cmd": "%s check.py %s --tier quick" % (PY, p), "thorough_cmd": "%s check.py %s --tier thorough" % (PY, p),
                   "technique": T, "level": level, "level_note": note, "evidence_file": "evidence/%s.json" % p})
m = {"version": 1, "setup_cmd": PY + " check.py --selftest", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in CLAIMED],
     "notes": "No hooks: nothing in /repo is guarded.  Genuine defects found and repaired are the fix: commits of /repo, listed in known-findings.json."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
missing = [i for i in ids if i not in CLAIMED and i not in NA]
print("missing:", missing)
