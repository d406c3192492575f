"""C14 features extraction."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def cfg(n, p, k, w, cap, spec="FairSpec", extra=""):
    return ("SPECIFICATION %s\nCONSTANTS N = %d\n P = %d\n K = %d\n W = %d\n Cap = %d\n Atomic = TRUE\n Emit = %s\n" % (spec, n, p, k, w, cap, "TRUE" if extra else "FALSE")
            + (extra or "INVARIANTS OnceEach AllAtEnd OneMark Bounded\nPROPERTY Ends\n") + "VIEW View\n")


def run(ctx):
    for a in ctx.scale([(3, 2, 2, 2, 2), (3, 1, 3, 3, 2), (2, 1, 1, 2, 2)], [(4, 2, 3, 3, 2), (4, 3, 3, 4, 3), (5, 2, 2, 3, 2), (3, 1, 4, 4, 2)]):
        ctx.model_check("FeatQueue", cfg(*a))
    # schedules for the real code: simulated behaviours of the model
    scheds = []
    for (n, p, k, w, cap) in [(4, 2, 4, 4, 2), (5, 1, 2, 2, 3), (6, 2, 4, 4, 4)]:
        got = ctx.generate("FeatQueue", cfg(n, p, k, w, cap, "Spec", "INVARIANT EmitLog\nCHECK_DEADLOCK FALSE\n"),
                           args=("-simulate", "num=%d" % ctx.scale(40, 200), "-depth", "400", "-seed", str(ctx.seed)))
        logs = {str(g["log"]): g["log"] for g in got}
        for l in list(logs.values())[:ctx.scale(14, 120)]:
            scheds.append({"n": n, "procs": k, "readers": p, "mem": 2 * cap, "log": l})
    out = ctx.drive("d_feat.py", {"schedules": scheds, "queue": ctx.scale(110, 2500), "maps": ctx.scale(40, 400), "runs": ctx.scale(24, 300)},
                    timeout=ctx.scale(400, 3000))
    if out is None:
        return
    ctx.judge("MonFeat", out["cases"], cfg_extra=MON, chunk=1500)
