"""Fresh build of the code under verification: copies /repo/sidetopics of the current working tree and
compiles its Cython modules there (same commands as the project's build), nothing is written to /repo."""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYX = ["util/se_fast", "util/sig_fast", "util/vt_fast", "model/lda_cvb_fast", "model/lda_cvb0_fast",
       "model/lda_vb_fast", "model/lda_gibbs_fast", "model/dmr_fast"]


def _one(root, rel, cache, inc):
    src = os.path.join(root, "sidetopics", rel + ".pyx")
    if not os.path.exists(src):
        return
    d = os.path.dirname(src)
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)):
        if f.endswith((".pxd", ".h")) or f == os.path.basename(src):
            h.update(open(os.path.join(d, f), "rb").read())
    h.update(rel.encode())
    key = os.path.join(cache, h.hexdigest()[:24] + ".so")
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    so = src[:-4] + ext
    if os.path.exists(key):
        shutil.copyfile(key, so)
        return
    c = src[:-4] + "__vp.c"
    r = subprocess.run([PY, "-m", "cython", "-X", "language_level=2", "-X", "legacy_implicit_noexcept=True",
                        "--module-name", "sidetopics." + rel.replace("/", "."), src, "-o", c], capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("cython %s: %s" % (rel, r.stderr[-2000:]))
    import numpy
    r = subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-fno-strict-aliasing", "-fwrapv", "-fopenmp", "-w",
                        "-I" + inc, "-I" + numpy.get_include(), "-I" + d, c, "-o", so, "-lgsl", "-lgslcblas", "-lgomp", "-lm"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("gcc %s: %s" % (rel, r.stderr[-2000:]))
    os.remove(c)
    try:
        os.makedirs(cache, exist_ok=True)
        tmp = key + ".%d" % os.getpid()
        shutil.copyfile(so, tmp)
        os.replace(tmp, key)
    except OSError:
        pass


def build(only=None):
    """-> scratch root containing sidetopics/"""
    root = tempfile.mkdtemp(prefix="vbuild_")
    shutil.copytree(os.path.join(REPO, "sidetopics"), os.path.join(root, "sidetopics"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc", "tests", "*.c"), symlinks=True)
    cache = os.path.join(VERIF, ".cache", "so")
    inc = sysconfig.get_path("include")
    r = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", os.path.join(VERIF, "engine", "vprand.c"), "-o", os.path.join(root, "vprand.so")])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda r: _one(root, r, cache, inc), [p for p in PYX if only is None or p in only]))
    return root


if __name__ == "__main__":
    print(build())
