"""developer entry: dev.py PROP [substring] [prove|test]"""
import os, sys, importlib, json, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, worker
prop = sys.argv[1]
sub = sys.argv[2] if len(sys.argv) > 2 else ""
mode = sys.argv[3] if len(sys.argv) > 3 else "both"
root = os.environ.get("DEV_ROOT")
if not root:
    root = build.build()
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, DEV_ROOT=root, LD_PRELOAD=root + "/vprand.so", MALLOC_PERTURB_="85", OMP_NUM_THREADS="1"))
worker.setup(root)
import spec
_out = os.fdopen(os.dup(1), "w")
if not os.environ.get("NOISE"):
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    if not os.environ.get("VERIF_DBG"):
        pass


def print(*a):
    _out.write(" ".join(str(x) for x in a)[:int(os.environ.get("PW","3000"))] + "\n")
    _out.flush()


importlib.import_module(prop)


def run():
    for n, c in spec.CONTRACTS.items():
        if sub in n:
            if mode in ("both", "prove") and c.mode == "proof":
                r = spec.prove_contract(c, root, 600)
                print(n, r["status"], "%d/%d" % (r["discharged"], r["obligations"]), r["wall_s"], "s", "paths", r["paths"], r["unsupported"] or "")
                for f in r["failed"][:6]:
                    print("    FAILED", f["kind"], f["obligation"], f["where"], f["reason"][:int(os.environ.get("PW","700"))], "REFUTED" if f["refuted"] else "")
            if mode in ("both", "test"):
                e = os.dup(2)
                if not os.environ.get("NOISE"):
                    os.dup2(1, 2)
                r = spec.test_contract(c, 1, int(os.environ.get("N", "60")), 60)
                os.dup2(e, 2)
                os.close(e)
                print(n, "TEST", {k: r[k] for k in r if k not in ("input", "contract")})
                if r["status"] == "violation" and os.environ.get("SHOW"):
                    print(json.dumps(r["input"])[:int(os.environ.get("PW","3000"))])


if os.environ.get('DUMP'):
    import faulthandler
    faulthandler.dump_traceback_later(int(os.environ['DUMP']), exit=True, file=open('/tmp/dump.txt', 'w'))
threading.stack_size(512 * 1024 * 1024)
if os.environ.get('PROF'):
    import cProfile, pstats
    run0 = run

    def run():
        p = cProfile.Profile()
        p.runcall(run0)
        pstats.Stats(p, stream=_out).sort_stats(os.environ['PROF']).print_stats(45)
t = threading.Thread(target=run)
t.start()
t.join()
import shutil
shutil.rmtree(root)
