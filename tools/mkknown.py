"""lists the fix: commits in known-findings.json (properties given in the table below)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(HERE, "tools", "fixprops.json")))
k = json.load(open(os.path.join(HERE, "known-findings.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
k["fixed"] = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p = PROP.get(s[5:])
        if p is None:
            print("no property for:", s[5:])
        k["fixed"].append("fixed: property=%s %s %s" % (p, h, s[5:]))
json.dump(k, open(os.path.join(HERE, "known-findings.json"), "w"), indent=1)
