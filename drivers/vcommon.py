"""Helpers for drivers (run inside the real code's interpreter)."""
import json
import logging
import os
import random
import sys

logging.disable(logging.CRITICAL)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


def load_input():
    with open(sys.argv[1]) as f:
        return json.load(f)


def save_output(obj):
    tmp = sys.argv[2] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f)
    os.replace(tmp, sys.argv[2])


def progress(obj):
    p = os.environ.get("VERIF_PROGRESS")
    if p:
        with open(p, "w") as f:
            f.write(json.dumps(obj, default=str))


def rng(salt):
    return random.Random("%s-%s" % (SEED, salt))


def exc_name(e):
    return type(e).__name__


def tok(x):
    """Exact textual token of a number."""
    if isinstance(x, bool):
        return "b%d" % x
    try:
        if float(x) == int(x):
            return str(int(x))
    except (ValueError, OverflowError):
        pass
    return repr(float(x))


def q(x, scale=1000000, lim=2000000000):
    """Scaled integer for TLC (32-bit)."""
    import math
    if x != x or math.isinf(x):
        return lim
    v = int(round(x * scale))
    return max(-lim, min(lim, v))


def fork_map(fn, items, procs=8):
    """fn(index, item) for every item in forked processes; the results in order.
    A process that dies loses its remaining items (reported as such)."""
    procs = max(1, min(procs, len(items)))
    pids = []
    for p in range(procs):
        pid = os.fork()
        if pid == 0:
            out = []
            path = os.path.join(SCRATCH, "fork%d.json" % p)
            for k in range(p, len(items), procs):
                out.append([k, fn(k, items[k])])
                with open(path + ".tmp", "w") as f:
                    json.dump(out, f)
                os.replace(path + ".tmp", path)
            os._exit(0)
        pids.append(pid)
    res = {}
    for p, pid in enumerate(pids):
        _, st = os.waitpid(pid, 0)
        path = os.path.join(SCRATCH, "fork%d.json" % p)
        if os.path.exists(path):
            with open(path) as f:
                res.update((k, v) for k, v in json.load(f))
            os.remove(path)
        if st != 0:
            raise RuntimeError("a worker process ended with status %d" % st)
    return [res[k] for k in range(len(items))]
