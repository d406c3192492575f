"""C20 motion estimation."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("TwoView", "SPECIFICATION Spec\nINVARIANTS Epipolar OneInFront Mirror Rigid Homography Vote\nCHECK_DEADLOCK FALSE\n")
    ctx.model_check("Ransac", "SPECIFICATION Spec\nCONSTANTS N = 3\nMODELS = 3\nITER = 3\nMIN = 2\nLO = 1\nINVARIANTS Members Greatest Grows Better\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n")
    sets = ctx.generate("LineSets", "SPECIFICATION Spec\nCONSTANTS W = 2\nHGT = 2\nK = %d\nINVARIANTS AtLeastTwo Columns Emit\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n" % ctx.scale(5, 6), workers=4)
    ctx.rng.shuffle(sets)
    n = ctx.scale(1, 8)
    out = ctx.drive("d_motion.py", {"ransac": 500 * n, "lines": sets[:ctx.scale(500, 4000)], "solvers": 150 * n, "two": 120 * n, "bear": 150 * n, "homography": 150 * n, "resect": 120 * n, "common": 120 * n}, timeout=ctx.scale(400, 3000))
    if out is None:
        return
    ctx.judge("MonMotion", out["cases"], cfg_extra=MON, chunk=1500)
