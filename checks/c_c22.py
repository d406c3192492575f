"""C22 incremental reconstruction."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("Incremental", "SPECIFICATION Spec\nCONSTANTS Images = {1, 2, 3, 4, 5}\nMate <- M1\nPairs <- Q1\nINVARIANTS Disjoint Complete Sorted Whole Tried\nCHECK_DEADLOCK FALSE\n")
    beh = ctx.generate("BundleClock", "SPECIFICATION Spec\nCONSTANTS MAXP = 22\nMAXS = 9\nLEN = 4\nCfgs <- C1\nINVARIANTS Fresh Grows Emit\nCHECK_DEADLOCK FALSE\n", workers=6)
    ctx.rng.shuffle(beh)
    out = ctx.drive("d_incr.py", {"incr": ctx.scale(140, 1500), "triang": ctx.scale(10, 60), "pairs": ctx.scale(40, 300), "resect": ctx.scale(200, 2000), "filters": ctx.scale(250, 2500),
                                  "realign": ctx.scale(120, 1200), "clock": beh[:ctx.scale(800, 8000)]}, timeout=ctx.scale(400, 3000))
    if out is None:
        return
    ctx.judge("MonIncr", out["cases"], cfg_extra=MON, chunk=200)
