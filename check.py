#!/opt/venv/bin/python
"""check.py PROP [--tier quick|thorough] [--replay FILE]

Verifies every contract of one property against the current source of /repo:
  * proof: the contract's obligations, generated from the source by engine/, must all be discharged;
  * trial: the same contract evaluated on generated inputs against the freshly built real code.  This gives
    failed obligations a replayable input and is the (labelled) bounded stand-in where a function is out of
    the verifier's reach.
exit 0: holds;  exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ENG = os.path.join(HERE, "engine")
sys.path.insert(0, ENG)
import build
import worker

WORKER = os.path.join(ENG, "worker.py")

ALWAYS = [
    "floating point numbers are treated as exact reals and C integers as unbounded integers (rounding, overflow, NaN and infinities are outside the proof; the trials run the real arithmetic)",
    "a divisor is never zero, the argument of a logarithm is positive and of lgamma/digamma valid, unless the contract says otherwise",
    "the engine itself (front ends for Python and Cython in engine/frontend_cy.py and engine/interp.py, the numpy/scipy model in engine/npmodel.py, the term algebra in engine/terms.py and engine/smt.py) and z3",
    "numpy and scipy.sparse primitives behave as axiomatised in engine/npmodel.py",
    "partial correctness: termination is not proved",
    "array inputs do not overlap each other; OpenMP/parallel semantics, the GIL and exceptions from the allocator are ignored",
]


def known(prop):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "known"]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vchk_")
        self.limit = 780 if tier == "quick" else 3300
        self.n = 0

    def left(self):
        return self.limit - (time.time() - self.t0)

    def spawn(self, mode, name, *args, timeout):
        self.n += 1
        out = os.path.join(self.tmp, re.sub(r"\W", "_", name) + "_%s_%d.json" % (mode, self.n))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", MALLOC_PERTURB_="85", MKL_NUM_THREADS="1")
        if mode == "test":
            env["LD_PRELOAD"] = os.path.join(self.root, "vprand.so")
        t0 = time.time()
        try:
            r = subprocess.run([build.PY, WORKER, mode, self.root, self.prop, name, out] + [str(a) for a in args],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(5, timeout), env=env, cwd=self.tmp)
            rc, txt = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as ex:
            rc, txt = "timeout", ""
        if os.path.exists(out):
            res = json.load(open(out))
        else:
            res = {"contract": name, "status": "crash" if isinstance(rc, int) and rc < 0 else "timeout" if rc == "timeout" else "error", "rc": rc, "output": txt[-2000:]}
            p = out + ".progress"
            if os.path.exists(p):
                s = open(p).read().strip().split("\n")[0]
                if s:
                    res["seed"] = int(s)
        res["_wall"] = round(time.time() - t0, 2)
        return res


def main():
    a = sys.argv[1:]
    prop = a[0]
    if prop == "--selftest":
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        return replay(prop, a[a.index("--replay") + 1])
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    run = Run(prop, tier, seed)
    try:
        return go(run)
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)
        if getattr(run, "root", None):
            shutil.rmtree(run.root, ignore_errors=True)


def selftest():
    """everything the checks need works here: the build (fills the compiler cache) and the loading of every contract"""
    root = build.build()
    try:
        for f in sorted(os.listdir(os.path.join(HERE, "props"))):
            if re.fullmatch(r"C\d\d\.py", f):
                print(f[:-3], len(listing(root, f[:-3])), "contracts")
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import z3
        print("z3", z3.get_version_string())
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return 0


def listing(root, prop):
    code = ("import sys,json;sys.path.insert(0,%r);import worker;worker.setup(%r);import spec,importlib;importlib.import_module(%r);"
            "print('@@'+json.dumps([[c.name,c.mode,c.targets,c.weight] for c in spec.CONTRACTS.values() if c.prop == %r]))" % (ENG, root, prop, prop))
    r = subprocess.run([build.PY, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for l in r.stdout.splitlines():
        if l.startswith("@@"):
            return json.loads(l[2:])
    raise RuntimeError("contracts do not load: " + r.stderr[-2000:])


def go(run):
    prop, tier = run.prop, run.tier
    try:
        run.root = build.build()
    except RuntimeError as ex:
        print("build failed: %s" % ex)
        return 2
    cs = listing(run.root, prop)
    only = os.environ.get("VERIF_ONLY")
    if only:
        cs = [c for c in cs if only in c[0]]
    ntests = 300 if tier == "quick" else 4000
    ttime = 40 if tier == "quick" else 300
    ptime = 420 if tier == "quick" else 1500
    proofs, trials = {}, {}

    def do_trial(c):
        trials[c[0]] = run.spawn("test", c[0], run.seed, ntests, ttime, timeout=min(ttime + 150, run.left()))

    def do_proof(c):
        lim = min(ptime, run.left() - 30)
        if lim < 10:
            proofs[c[0]] = {"status": "unsupported", "unsupported": "no time left in this run", "obligations": 0, "discharged": 0, "failed": []}
            return
        r = run.spawn("prove", c[0], lim, timeout=lim + 20)
        if r["status"] in ("timeout", "error", "crash") and "unsupported" not in r:
            r = dict(r, status="unsupported", unsupported="verifier %s: %s" % (r["status"], r.get("output", "")[-300:]), obligations=0, discharged=0, failed=[])
        proofs[c[0]] = r

    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(do_proof, c) for c in sorted(cs, key=lambda c: -c[3]) if c[1] == "proof"]
        fs += [ex.submit(do_trial, c) for c in cs]
        for f in fs:
            f.result()

    # a failed obligation: look harder for an input that shows it on the real code
    for c in cs:
        p = proofs.get(c[0])
        t = trials[c[0]]
        if p and p["status"] in ("failed",) and t["status"] == "ok" and run.left() > 60:
            t2 = run.spawn("test", c[0], run.seed + 77, ntests * 10, min(90, run.left() - 40), timeout=min(200, run.left() - 20))
            if t2["status"] == "violation" or t2["status"] == "crash":
                trials[c[0]] = t2

    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    kn = known(prop)
    viol = []
    notes = []
    for c in cs:
        name = c[0]
        p, t = proofs.get(name), trials[name]
        path = os.path.join(rdir, "%s.json" % re.sub(r"[^\w.-]", "_", name))
        rec = {"property": prop, "contract": name, "targets": c[2]}
        bad = None
        if t["status"] == "violation":
            rec.update(kind="failing input on the real code", seed=t["seed"], small=t["small"], requirement=t["requirement"], detail=t["detail"], input=t["input"])
            bad = ("", "%s: %s (%s)" % (name, t["requirement"], t["detail"][:300]))
            req = t["requirement"]
        elif t["status"] == "crash":
            rec.update(kind="the real code crashes", seed=t.get("seed"), signal=-t["rc"])
            bad = ("", "%s: the process is killed by signal %s" % (name, -t["rc"]))
            req = "crash"
        elif t["status"] == "timeout" and t.get("seed") is not None and run.left() > 0:
            rec.update(kind="the real code does not finish on this input", seed=t.get("seed"))
            bad = ("", "%s: no answer on the generated input of seed %s" % (name, t.get("seed")))
            req = "termination"
        elif p and p["status"] == "failed":
            f = p["failed"][0]
            rec.update(kind="failed proof obligation, no failing input found", failed=p["failed"])
            bad = (" no-failing-input-found", "%s: obligation not discharged: %s at %s: %s" % (name, f["obligation"], f["where"], f["reason"][:300]))
            req = f["obligation"]
        elif t["status"] == "error":
            print("trial run of %s did not work: %s" % (name, t.get("output", "")[-1500:]))
            notes.append("%s: trial run did not work" % name)
            if "VERIF_DEBUG" in os.environ:
                print(t)
        if bad:
            if p and p.get("failed"):
                rec["failed_obligations"] = p["failed"]
            json.dump(rec, open(path, "w"), indent=1, default=str)
            k = [k for k in kn if k["contract"] == name and k["requirement"] == req]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
                notes.append("known finding: " + k[0]["what"])
            else:
                viol.append((path, bad))
    evidence(run, cs, proofs, trials, viol, notes)
    for path, (suffix, what) in viol:
        print(what)
    seen = set()
    for path, (suffix, what) in sorted(viol, key=lambda z: z[1][0] != ""):
        print("VIOLATION property=%s replay=%s%s" % (prop, path, suffix))
    return 1 if viol else 0


def evidence(run, cs, proofs, trials, viol, notes):
    prop = run.prop
    proved = [c[0] for c in cs if c[0] in proofs and proofs[c[0]]["status"] == "proved"]
    unproved = {c[0]: (proofs[c[0]]["status"] + ": " + str(proofs[c[0]].get("unsupported") or "")[:400]) for c in cs if c[0] in proofs and proofs[c[0]]["status"] != "proved"}
    bounded = [c[0] for c in cs if c[0] not in proofs]
    ob = sum(p.get("obligations", 0) for p in proofs.values())
    di = sum(p.get("discharged", 0) for p in proofs.values())
    be, kinds, funcs, assumed = {}, {}, set(), set()
    used = set()
    solver = 0.0
    nq = 0
    for n, p in proofs.items():
        for k, x in p.get("by_backend", {}).items():
            be[k] = be.get(k, 0) + x
        for k, x in p.get("kinds", {}).items():
            kinds[k] = kinds.get(k, 0) + x
        if p["status"] == "proved":
            funcs |= set(p.get("functions", ()))
        assumed |= set(p.get("assumed", ()))
        used |= set(p.get("contracts_used", ()))
        solver += p.get("solver", {}).get("z3_time", 0)
        nq += p.get("solver", {}).get("z3_queries", 0)
    allproof = bool(proved) and not unproved and not bounded
    level = "proof" if proved else "other"
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": "/opt/venv/bin/python /verif/check.py %s --tier %s" % (prop, run.tier),
        "trusted_base": ALWAYS[2:4] + sorted(assumed),
        "explanation": "contracts proved for all inputs: %d; contracts not proved on this run (bounded trials only): %d; contracts checked by bounded trials by design: %d" % (len(proved), len(unproved), len(bounded)),
        "functions_under_contract": sorted({t for c in cs for t in c[2]}),
        "functions_verified_from_source": sorted(funcs),
        "contracts_proved": {n: {"obligations": proofs[n]["obligations"], "paths": proofs[n]["reachable_paths"], "wall_s": proofs[n]["wall_s"]} for n in proved},
        "contracts_not_proved": unproved,
        "contracts_bounded_by_design": bounded,
        "callee_contracts_used": sorted(used),
        "obligations_by_backend": be, "obligations_by_kind": kinds,
        "z3_queries": nq, "solver_time_s": round(solver, 2),
        "trials": {c[0]: {k: trials[c[0]].get(k) for k in ("status", "ran", "rejected", "checked", "seed")} for c in cs},
        "trial_bound": "generated inputs with every extent at most 10, %s runs per contract" % (300 if run.tier == "quick" else 4000),
        "notes": notes,
    }
    ev = {"property": prop, "tier": run.tier, "seed": run.seed, "level": level, "coverage": cov, "assumptions": ALWAYS + sorted(assumed),
          "wall_s": round(time.time() - run.t0, 2), "violations": len(viol)}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % prop))
    for n in cs:
        p = proofs.get(n[0])
        print("%-60s %-10s %s  trials: %s %s" % (n[0], p["status"] if p else "bounded",
              ("%d/%d obligations %.1fs" % (p["discharged"], p["obligations"], p.get("wall_s", 0))) if p else "", trials[n[0]]["status"], trials[n[0]].get("ran", "")))
        if p and p["status"] not in ("proved", "failed"):
            print("      not proved: %s" % str(p.get("unsupported"))[:300])


def replay(prop, path):
    rec = json.load(open(path))
    root = build.build()
    try:
        if rec.get("seed") is None:
            print("no input recorded; failed obligations:")
            print(json.dumps(rec.get("failed"), indent=1)[:6000])
            return 1
        code = ("import sys;sys.path.insert(0,%r);import worker;worker.setup(%r);import spec,importlib;importlib.import_module(%r);"
                "print(spec.replay(spec.CONTRACTS[%r], %d))" % (ENG, root, prop, rec["contract"], rec["seed"]))
        return 1 if subprocess.run([build.PY, "-c", code], env=dict(os.environ, LD_PRELOAD=os.path.join(root, "vprand.so"), MALLOC_PERTURB_="85")).returncode else 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
