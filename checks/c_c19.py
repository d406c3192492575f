"""C19 triangulation."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("RayMeet", "SPECIFICATION Spec\nCONSTANTS SN = 1\nSD = 8\nINVARIANTS Solvable Unique NeverParallel Behind Off Grow Order\nCHECK_DEADLOCK FALSE\n")
    out = ctx.drive("d_tri.py", {"point": ctx.scale(900, 9000), "two": ctx.scale(200, 2000), "epi": ctx.scale(200, 2000), "refine": ctx.scale(200, 2000), "scene": ctx.scale(500, 6000), "rate": ctx.scale(300, 3000), "outliers": ctx.scale(400, 4000)}, timeout=ctx.scale(300, 2000))
    if out is None:
        return
    ctx.judge("MonTri", out["cases"], cfg_extra=MON, chunk=3000)
