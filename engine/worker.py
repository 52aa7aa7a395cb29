"""one contract in its own process:  worker.py prove|test ROOT PROP CONTRACT OUT [seed n tlimit]"""
import faulthandler
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def setup(root):
    sys.path[:0] = [root, HERE, os.path.join(os.path.dirname(HERE), "props")]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.setrecursionlimit(20000)
    import warnings
    warnings.filterwarnings("ignore")


def main():
    mode, root, prop, name, out = sys.argv[1:6]
    setup(root)
    import spec
    importlib.import_module(prop)
    c = spec.CONTRACTS[name]
    if mode == "prove":
        tl = float(sys.argv[6])
        import threading
        threading.stack_size(512 * 1024 * 1024)
        res = {}

        def run():
            try:
                res.update(spec.prove_contract(c, root, tl))
            except Exception as ex:
                import traceback
                res.update({"contract": name, "status": "error", "unsupported": "engine error: %s" % ex, "trace": traceback.format_exc()[-3000:],
                            "obligations": 0, "discharged": 0, "failed": [], "functions": [], "assumed": [], "wall_s": 0})
        t = threading.Thread(target=run)
        t.start()
        t.join()
    else:
        seed, n, tl = int(sys.argv[6]), int(sys.argv[7]), float(sys.argv[8])
        pf = open(out + ".progress", "w")

        def progress(s):
            pf.seek(0)
            pf.write("%d\n" % s)
            pf.flush()
        so = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        res = spec.test_contract(c, seed, n, tl, progress)
        os.dup2(so, 1)
    with open(out, "w") as f:
        json.dump(res, f, indent=1, default=str)


if __name__ == "__main__":
    main()
