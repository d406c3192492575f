#!/usr/bin/env python3
"""Incremental (content-hash) build of OpenSfM's eight C++ extensions.

The sources are /repo's own files (third_party/pybind11 is absent from the
sandbox; /verif/bind provides a stand-in header set).  Outputs go to
$VERIF_BUILD (default /verif/build), never into /repo.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "opensfm", "src")
EXTS = {
    "pybundle": "bundle",
    "pydense": "dense",
    "pyfeatures": "features",
    "pygeo": "geo",
    "pygeometry": "geometry",
    "pymap": "map",
    "pyrobust": "robust",
    "pysfm": "sfm",
}
NP_INC = "/opt/venv/lib/python3.12/site-packages/numpy/_core/include"
PY_INC = "/usr/include/python3.12"
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"
DEFS = ["-DVL_DISABLE_AVX", "-DINPLACE_VLFEAT", "-DVL_DISABLE_SSE2",
        "-DNDEBUG"]
OPT = ["-O1", "-g0", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-w", "-fopenmp"]
LIBS = ["-lceres", "-lglog", "-lgflags", "-lopencv_calib3d", "-lopencv_imgcodecs",
        "-lopencv_imgproc", "-lopencv_core", "-llapack", "-lblas", "-fopenmp", "-lm"]


def sha(path, cache):
    h = cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        cache[path] = h
    return h


def includes():
    inc = [
        os.path.join(VERIF, "bind"), SRC,
        os.path.join(SRC, "third_party", "vlfeat"),
        os.path.join(SRC, "third_party", "akaze", "lib"),
        os.path.join(SRC, "third_party"),
        PY_INC, NP_INC, "/usr/include/eigen3", "/usr/include/opencv4",
    ]
    return ["-I" + i for i in inc]


def tus():
    out = []
    for d in sorted(os.listdir(SRC)):
        if d in ("third_party", "cmake"):
            continue
        for f in sorted(glob.glob(os.path.join(SRC, d, "src", "*.cc"))):
            out.append((f, "core"))
        for f in sorted(glob.glob(os.path.join(SRC, d, "python", "*.cc"))):
            out.append((f, "ext:" + d))
    for f in sorted(glob.glob(os.path.join(SRC, "third_party", "akaze", "lib", "*.cpp"))):
        out.append((f, "core"))
    for f in sorted(glob.glob(os.path.join(SRC, "third_party", "vlfeat", "vl", "*.c"))):
        out.append((f, "core"))
    return out


def compile_cmd(src, obj, dep):
    if src.endswith(".c"):
        cc = ["gcc", "-std=gnu11"]
    else:
        cc = ["g++", "-std=c++17"]
    flags = list(OPT)
    if "third_party" in src:
        flags[0] = "-O2"
    return cc + flags + DEFS + includes() + ["-MMD", "-MF", dep, "-c", src, "-o", obj]


def parse_dep(dep):
    with open(dep) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [p for p in t.split() if p.startswith((SRC, VERIF))]


def build(verbose=True):
    t0 = time.time()
    objdir = os.path.join(BUILD, "obj")
    extdir = os.path.join(BUILD, "ext")
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(extdir, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        cache = {}
        todo, objs = [], {}
        for src, kind in tus():
            rel = os.path.relpath(src, SRC).replace("/", "__")
            obj = os.path.join(objdir, rel + ".o")
            dep, meta = obj + ".d", obj + ".json"
            cmd = compile_cmd(src, obj, dep)
            objs[src] = (obj, kind)
            ok = False
            if os.path.exists(obj) and os.path.exists(meta):
                with open(meta) as f:
                    m = json.load(f)
                ok = m["cmd"] == cmd and all(sha(p, cache) == h for p, h in m["deps"].items())
            if not ok:
                todo.append((src, obj, dep, meta, cmd))

        def run(job):
            src, obj, dep, meta, cmd = job
            for p in (obj, meta):
                if os.path.exists(p):
                    os.unlink(p)
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                return src, r.stderr
            deps = {p: sha(p, cache) for p in parse_dep(dep)}
            with open(meta, "w") as f:
                json.dump({"cmd": cmd, "deps": deps}, f)
            return src, None

        # biggest first
        todo.sort(key=lambda j: -os.path.getsize(j[0]) - (10**7 if "python/pybind" in j[0] or "bundle" in j[0] else 0))
        errors = []
        if todo:
            with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                for src, err in ex.map(run, todo):
                    if err:
                        errors.append((src, err))
        if errors:
            for src, err in errors:
                sys.stderr.write("BUILD FAILED %s\n%s\n" % (src, err[:6000]))
            return False
        # archive + link, keyed on object hashes
        core = sorted(o for o, k in objs.values() if k == "core")
        core_key = hashlib.sha256("".join(sha(o, {}) for o in core).encode()).hexdigest()
        ar = os.path.join(BUILD, "libcore.a")
        arm = ar + ".key"
        if not (os.path.exists(ar) and os.path.exists(arm) and open(arm).read() == core_key):
            if os.path.exists(ar):
                os.unlink(ar)
            subprocess.check_call(["ar", "rcs", ar] + core)
            open(arm, "w").write(core_key)
        links = []
        for ext, d in EXTS.items():
            mine = sorted(o for s, (o, k) in objs.items() if k == "ext:" + d)
            key = hashlib.sha256((core_key + "".join(sha(o, {}) for o in mine) + " ".join(LIBS)).encode()).hexdigest()
            so = os.path.join(extdir, ext + SUFFIX)
            km = os.path.join(BUILD, ext + ".key")
            if os.path.exists(so) and os.path.exists(km) and open(km).read() == key:
                continue
            links.append((["g++", "-shared", "-o", so] + mine +
                          ["-Wl,--start-group", ar, "-Wl,--end-group"] + LIBS, km, key))

        def link(j):
            cmd, km, key = j
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                return r.stderr
            open(km, "w").write(key)
            return None

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for err in ex.map(link, links):
                if err:
                    sys.stderr.write("LINK FAILED\n%s\n" % err[:6000])
                    return False
        if verbose:
            sys.stderr.write("[extbuild] %d compiled, %d linked in %.1fs\n" % (len(todo), len(links), time.time() - t0))
        return True
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    sys.exit(0 if build() else 2)
