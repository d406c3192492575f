#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds/*.py and confirm each one in a scratch copy.

usage: mkseed.py [id ...]      (default: those without a directory)
Each tools/seeds/*.py defines SEEDS, a list of dicts: id, property, edits
[(file, old, new)], needs, breaks, demo (Python source run with cwd = the
repository, which may `import stubs`) or demo_files {name: content}.
"""
import glob, json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mkseed"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    seeds = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        if os.path.basename(f) != "stubs.py":
            seeds += runpy.run_path(f)["SEEDS"]
    want = sys.argv[1:]
    for s in seeds:
        d = os.path.join(V, "seeded", s["id"])
        if want and s["id"] not in want or not want and os.path.isdir(d):
            continue
        if not os.path.isdir(W):
            sh("cp -a /repo %s" % W)
        sh("cd %s && git fetch -q %s HEAD && git checkout -q -f FETCH_HEAD" % (W, os.environ.get("MSRC", "/repo")))
        files = dict(s.get("demo_files") or {})
        if "demo" in s:
            files["demo.py"] = s["demo"]
            files.setdefault("demo.sh", '#!/bin/bash\nexec timeout 200 env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        if any("import stubs" in c or "from stubs" in c for c in files.values()):
            files["stubs.py"] = open(os.path.join(V, "tools", "seeds", "stubs.py")).read()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, c in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(c)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
        r0 = sh("cd %s && bash %s/demo.sh" % (W, d))
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches %d times in %s" % (t.count(old), f)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if ok:
            diff = sh("cd %s && git diff" % W).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            r1 = sh("cd %s && bash %s/demo.sh" % (W, d))
            ok = r0.returncode == 0 and r1.returncode not in (0, 124)
            print(s["id"], "ok" if ok else "BAD", "clean rc=%d patched rc=%d" % (r0.returncode, r1.returncode))
            if not ok:
                print(r0.stdout[-800:], r0.stderr[-600:], "---\n", r1.stdout[-500:], r1.stderr[-500:])
            else:
                print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
        sh("cd %s && git checkout -q -f ." % W)
        if not ok:
            shutil.rmtree(d)


main()
