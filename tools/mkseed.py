"""development helper: (re)makes /verif/seeded/<id>/ from tools/seeds/<id>.py, confirms the demonstration on a scratch
copy, and reports whether the property's check notices.   mkseed.py ID... [--nocheck]
A seed file defines PROPERTY, EDITS = [(file, old, new[, occurrence])], NEEDS, BREAKS, DEMO (python source run with
PYTHONPATH=. in the repository root; exit 0 = correct)."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
sys.path.insert(0, os.path.join(HERE, "engine"))


def one(sid, check=True):
    s = runpy.run_path(os.path.join(HERE, "tools", "seeds", sid + ".py"))
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        wt = os.path.join(tmp, "r")
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
        for e in s["EDITS"]:
            f, old, new = e[:3]
            occ = e[3] if len(e) > 3 else None
            p = os.path.join(wt, f)
            t = open(p).read()
            n = t.count(old)
            if occ is None:
                assert n == 1, (sid, f, "matches", n, old)
                t = t.replace(old, new)
            else:
                parts = t.split(old)
                assert n > occ, (sid, f, n)
                t = old.join(parts[:occ + 1]) + new + old.join(parts[occ + 1:])
            open(p, "w").write(t)
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
        d = os.path.join(HERE, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. exec /opt/venv/bin/python "$here/demo.py"\n')
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(os.environ, VERIF_REPO=wt)
        r = subprocess.run([PY, os.path.join(HERE, "engine", "build.py")], env=env, capture_output=True, text=True)
        if r.returncode:
            print(sid, "BUILD FAILS", r.stderr[-800:]); return
        bad = r.stdout.strip()
        good = subprocess.run([PY, os.path.join(HERE, "engine", "build.py")], capture_output=True, text=True).stdout.strip()
        rg = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=good, capture_output=True, text=True, timeout=300)
        rb = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=bad, capture_output=True, text=True, timeout=300)
        shutil.rmtree(good); shutil.rmtree(bad)
        print(sid, "demo clean rc=%d patched rc=%d %s" % (rg.returncode, rb.returncode, "OK" if rg.returncode == 0 and rb.returncode else "*** BAD ***"))
        if rg.returncode or not rb.returncode:
            print((rg.stdout + rg.stderr)[-1500:]); print((rb.stdout + rb.stderr)[-800:]); return
        if check:
            t0 = time.time()
            r = subprocess.run([PY, os.path.join(HERE, "check.py"), s["PROPERTY"], "--tier", "quick"], cwd=HERE, env=dict(env, VERIF_SEED="1"), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("   check rc=%d in %.0fs: %s" % (r.returncode, time.time() - t0, v[:3]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if a[0] != "-"]
    if not ids:
        ids = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "tools", "seeds")) if f.endswith(".py"))
    for i in ids:
        one(i, "--nocheck" not in sys.argv)
