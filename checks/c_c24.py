"""C24 submodels."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    beh = ctx.generate("Submodels", "SPECIFICATION Spec\nCONSTANTS N = 3\nPOS = {0, 1, 2, 4}\nGROUPS = 2\nOVER = {0, 1, 2}\nMAXRUNS = 2\nINVARIANTS Cover Own Fresh Whole Overlap Emit\nCHECK_DEADLOCK FALSE\n", workers=6)
    ctx.rng.shuffle(beh)
    out = ctx.drive("d_sub.py", {"split": beh[:ctx.scale(350, 4000)], "randsplit": ctx.scale(150, 2000), "align": ctx.scale(160, 2500), "small": ctx.scale(150, 2000), "resect": ctx.scale(150, 2000)}, timeout=ctx.scale(300, 3000))
    if out is None:
        return
    ctx.judge("MonSub", out["cases"], cfg_extra=MON, chunk=600)
