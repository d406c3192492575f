"""Shared machinery: TLC runs, behaviour generation, trace judging, verdicts.

A check is a Python module in /verif/checks with `run(ctx)`.  The specification
(TLA+, /verif/spec) is the oracle: drivers only produce inputs, call the real
code and record what they observe; TLC decides every recorded event.
"""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Stop(Exception):
    """Raised once enough violations were collected."""


def tla_unquote(s):
    # TLC prints strings with \" and \\ escapes.
    return s.replace('\\"', '"').replace("\\\\", "\\")


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + sum(ord(c) for c in pid))
        self.t0 = time.time()
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.cov = {}
        self.assumptions = []
        self.log_lines = []
        self.exhaustive = None
        self._n = 0
        self.known = load_known(pid)

    # ------------------------------------------------------------------ misc
    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        msg = "[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, " ".join(str(x) for x in a))
        print(msg, file=sys.stderr, flush=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, files=None, args=(), workers=None, timeout=600, heap="6g", env=None):
        """Run TLC on spec/<module>.tla with the given cfg text.  Returns stdout."""
        self._n += 1
        d = self.path("tlc%d_%s" % (self._n, module))
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        for name, content in (files or {}).items():
            p = os.path.join(d, name)
            if os.path.lexists(p):
                os.unlink(p)
            with open(p, "w") as f:
                if isinstance(content, str):
                    f.write(content)
                else:
                    json.dump(content, f)
        if workers is None:
            workers = min(8, os.cpu_count() or 4)
        os.makedirs(self.path("tmp"), exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.path("tmp"), "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", module + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on %s after %ss" % (module, timeout))
        out = "\n".join(l for l in r.stdout.splitlines() if not l.startswith(
            ("Parsing file", "Semantic processing", "Linting of")))
        self.log("tlc %s rc=%d %.1fs" % (module, r.returncode, time.time() - t))
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(out + "\n" + r.stderr)
        return r.returncode, out

    @staticmethod
    def tlc_stats(out):
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model_check(self, module, cfg, timeout=600, workers=None, expect_states=None):
        """Exhaustive check of the specification itself."""
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers)
        gen, dist = self.tlc_stats(out)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError("model %s does not satisfy its own properties:\n%s" % (module, out[-4000:]))
        self.states += dist
        self.transitions += gen
        self.cov.setdefault("models", {})[module] = {"states_generated": gen, "distinct_states": dist}
        self.log("model %s: %d states generated, %d distinct" % (module, gen, dist))
        return out

    EMIT = re.compile(r'^"@@(.*)"$')

    def generate(self, module, cfg, args=(), workers=1, timeout=600, count_states=True):
        """Run TLC and collect the JSON lines the spec prints as "@@<json>"."""
        rc, out = self.tlc(module, cfg, args=args, workers=workers, timeout=timeout)
        res = []
        for line in out.splitlines():
            m = self.EMIT.match(line.strip())
            if m:
                res.append(json.loads(tla_unquote(m.group(1))))
        if not res:
            raise MachineryError("no behaviours generated by %s:\n%s" % (module, out[-3000:]))
        if count_states:
            gen, dist = self.tlc_stats(out)
            self.states += dist
            self.transitions += gen
            self.cov.setdefault("models", {})[module] = {"states_generated": gen, "distinct_states": dist,
                                                         "behaviours_emitted": len(res)}
        self.log("generated %d behaviours from %s" % (len(res), module))
        return res

    def judge(self, module, cases, cfg_extra="", timeout=600, chunk=None, label=None):
        """Check recorded cases ([{id, events:[...]}...]) against a monitor spec.

        The monitor prints "@@FAIL {...}" lines for every rejected event; the
        number of distinct states proves that every event was consumed.
        """
        if not cases:
            raise MachineryError("no cases for %s" % module)
        chunks = [cases] if not chunk else [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
        fails = []
        for cs in chunks:
            cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n" + cfg_extra
            for _ in range(6):
                rc, out = self.tlc(module, cfg, files={"cases.json": cs}, timeout=timeout)
                if rc == 0 and "Model checking completed" in out:
                    break
                # An observation for which the specification has no meaning (wrong
                # type, missing element...) makes TLC stop: blame that case.
                idx = re.findall(r"^/\\ caseIdx = (\d+)", out, re.M)
                evi = re.findall(r"^/\\ evIdx = (\d+)", out, re.M)
                if "Parsing" in out.split("Error:")[-1][:40] or not idx or "Error:" not in out:
                    raise MachineryError("judge %s failed rc=%d:\n%s" % (module, rc, out[-5000:]))
                case = cs[int(idx[-1]) - 1]
                self.violation("observation outside the domain of the specification", {
                    "monitor": module, "case": case, "event_index": int(evi[-1]) + 1, "tlc": out[-3000:]},
                    ident=case.get("known", ""))
                cs = [x for x in cs if x is not case]
            else:
                raise MachineryError("judge %s keeps failing:\n%s" % (module, out[-3000:]))
            if not cs:
                continue
            gen, dist = self.tlc_stats(out)
            mine = []
            seen = set()
            for line in out.splitlines():
                m = self.EMIT.match(line.strip())
                if m and m.group(1).startswith("FAIL "):
                    rec = json.loads(tla_unquote(m.group(1)[5:]))
                    key = (rec["c"], rec["i"])
                    if key not in seen:
                        seen.add(key)
                        mine.append(rec)
            expect = sum(1 + len(c["events"]) for c in cs)
            lost = sum(len(cs[r["c"] - 1]["events"]) - r["i"] for r in mine)
            if dist != expect - lost:
                raise MachineryError("judge %s consumed %d states, expected %d (fails %d)\n%s" % (
                    module, dist, expect - lost, len(mine), out[-3000:]))
            self.traces += len(cs)
            self.events += sum(len(c["events"]) for c in cs)
            for r in mine:
                fails.append((cs[r["c"] - 1], r))
        name = label or module
        j = self.cov.setdefault("judged", {}).setdefault(name, {"cases": 0, "events": 0, "rejected": 0})
        j["cases"] += len(cases)
        j["events"] += sum(len(c["events"]) for c in cases)
        j["rejected"] += len(fails)
        if len(self.samples) < 6:
            s = cases[len(cases) // 2]
            txt = json.dumps(s)
            self.samples.append(json.loads(txt) if len(txt) < 3000 else {"case": s.get("id"), "excerpt": txt[:1500]})
        for case, rec in fails:
            ev = case["events"][rec["i"] - 1] if rec["i"] >= 1 else None
            self.violation(rec["why"], {"monitor": name, "case": case, "event_index": rec["i"], "event": ev},
                           ident=case.get("known", ""))
        self.log("judged %d cases (%d events) with %s: %d rejected" % (
            len(cases), sum(len(c["events"]) for c in cases), name, len(fails)))
        return fails

    # -------------------------------------------------------------- verdicts
    def violation(self, clause, replay, ident=""):
        key = "%s|%s" % (clause, ident)
        for k in self.known:
            if k["match"] == key or (k["match"].endswith("*") and key.startswith(k["match"][:-1])):
                self.known_hits.append((k, key))
                return
        self.violations.append((clause, replay))

    def drive(self, script, args=None, timeout=600, env=None, ok_rc=(0,), crash_is_violation=True):
        """Run a driver script under the real code; returns its JSON output.

        A driver writes JSON to the path given as argv[2]; argv[1] is the JSON
        input.  A signal (segfault, abort) or a timeout while it was inside the
        code under test is reported as a violation.
        """
        self._n += 1
        inp, outp, prog = (self.path("d%d.%s" % (self._n, s)) for s in ("in.json", "out.json", "progress"))
        with open(inp, "w") as f:
            json.dump(args or {}, f)
        e = py_env()
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_TIER"] = self.tier
        e["VERIF_PROGRESS"] = prog
        e["VERIF_SCRATCH"] = self.path("scratch%d" % self._n)
        os.makedirs(e["VERIF_SCRATCH"])
        e.update(env or {})
        t = time.time()
        cmd = ["/opt/venv/bin/python", "-X", "faulthandler", os.path.join(VERIF, "drivers", script), inp, outp]
        with open(self.path("d%d.err" % self._n), "w") as errf:
            p = subprocess.Popen(cmd, cwd=e["VERIF_SCRATCH"], env=e, stdout=errf, stderr=errf, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
                timed_out = False
            except subprocess.TimeoutExpired:
                timed_out = True
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        err = open(self.path("d%d.err" % self._n)).read()
        progress = open(prog).read()[-4000:] if os.path.exists(prog) else ""
        shutil.rmtree(e["VERIF_SCRATCH"], ignore_errors=True)
        self.log("driver %s rc=%s %.1fs" % (script, rc, time.time() - t))
        if timed_out and crash_is_violation:
            self.violation("driver-timeout: the code under test did not return", {
                "driver": script, "input": args, "last_case": progress, "stderr": err[-3000:]})
            return None
        if rc < 0 and crash_is_violation and not timed_out:
            self.violation("crash: signal %d" % -rc, {
                "driver": script, "input": args, "last_case": progress, "stderr": err[-3000:]})
            return None
        if rc not in ok_rc:
            if crash_is_violation and blames_repo(err):
                self.violation("unexpected exception: " + last_line(err), {
                    "driver": script, "input": args, "last_case": progress, "stderr": err[-6000:]})
                return None
            if crash_is_violation and progress and not re.search(r"^(ImportError|ModuleNotFoundError|MemoryError)", last_line(err)):
                # the driver copes with everything the unchanged code returns
                self.violation("the driver could not interpret what the code did: " + last_line(err), {
                    "driver": script, "input": args, "last_case": progress, "stderr": err[-6000:]})
                return None
            raise MachineryError("driver %s failed rc=%s\n%s" % (script, rc, err[-6000:]))
        with open(outp) as f:
            return json.load(f)

    # --------------------------------------------------------------- evidence
    def finish(self):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_judged": self.events,
            "samples": self.samples[:8] or [{"note": "no trace recorded"}],
        }
        cov.update(self.cov)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in {json.dumps(k, sort_keys=True) for k, _ in self.known_hits}:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, json.loads(k)["what"]))
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            seen = {}
            for clause, replay in self.violations:
                seen.setdefault(clause, []).append(replay)
            for n, (clause, reps) in enumerate(sorted(seen.items())):
                p = os.path.join(VERIF, "replays", "%s-%d.json" % (self.pid, n))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "clause": clause, "seed": self.seed, "tier": self.tier,
                               "count": len(reps), "replay": reps[0]}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  clause: %s (%d case(s))" % (clause, len(reps)))
                if n >= 9:
                    break
            return 1
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" % (
            self.pid, self.states, self.traces, self.events, time.time() - self.t0))
        return 0


def last_line(s):
    lines = [l for l in s.strip().splitlines() if l.strip()]
    return lines[-1][:300] if lines else ""


def blames_repo(err):
    """True when the innermost frame of the last traceback lies in the repo."""
    frames = re.findall(r'File "([^"]+)", line', err.rsplit("Traceback (most recent call last)", 1)[-1])
    return bool(frames) and any(f.startswith(os.path.join(REPO, "opensfm")) for f in frames)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def py_env():
    e = dict(os.environ)
    e["PYTHONPATH"] = os.path.join(VERIF, "lib", "site") + ":" + os.path.join(VERIF, "drivers")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPYCACHEPREFIX"] = os.path.join(VERIF, "work", "nopyc")
    e["OMP_NUM_THREADS"] = e.get("OMP_NUM_THREADS", "2")
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["OPENCV_LOG_LEVEL"] = "ERROR"
    e["GLOG_minloglevel"] = "3"
    return e


def main(pid, run, level="model_checking"):
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    import extbuild
    ctx = Ctx(pid, level)
    try:
        if not extbuild.build():
            print("build of the C++ extensions failed", file=sys.stderr)
            return 2
        try:
            run(ctx)
        except Stop:
            pass
        return ctx.finish()
    except MachineryError as e:
        if ctx.violations:
            ctx.log("machinery error after violations: %s" % e)
            return ctx.finish()
        print("MACHINERY ERROR: %s" % e, file=sys.stderr)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.dir, ignore_errors=True)
