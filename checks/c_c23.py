"""C23 rigs."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    beh = ctx.generate("RigGroup", "SPECIFICATION Spec\nCONSTANTS Tokens = {\"a\", \"l\", \"r\"}\nMAXLEN = 3\nPatLists <- P1\nINVARIANTS Once SameKey Keys Emit\nCHECK_DEADLOCK FALSE\n", workers=6)
    ctx.rng.shuffle(beh)
    out = ctx.drive("d_rig.py", {"group": beh[:ctx.scale(2500, 6000)], "randgroup": ctx.scale(500, 5000), "calib": ctx.scale(500, 6000), "subset": ctx.scale(40, 400)}, timeout=ctx.scale(300, 2000))
    if out is None:
        return
    ctx.judge("MonRig", out["cases"], cfg_extra=MON, chunk=600)
