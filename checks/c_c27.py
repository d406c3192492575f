"""C27 statistics."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    beh = ctx.generate("StatsHist", "SPECIFICATION Spec\nCONSTANTS LENS = {1, 2, 3}\nPOS <- Left\nMAXPTS = %d\nMAXRECS = 2\nINVARIANTS Complete Observations Boxed Tight Emit\nCHECK_DEADLOCK FALSE\n" % ctx.scale(2, 3), workers=6)
    ctx.rng.shuffle(beh)
    out = ctx.drive("d_stats.py", {"hist": beh[:ctx.scale(120, 1500)], "rand": ctx.scale(150, 2500), "plot": ctx.scale(4, 40)}, timeout=ctx.scale(300, 3000))
    if out is None:
        return
    ctx.judge("MonStats", out["cases"], cfg_extra=MON, chunk=400)
