"""C17 alignment."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("SimFrame", "SPECIFICATION Spec\nINVARIANTS Rotations SameImages Compose Unique Optimal\nCHECK_DEADLOCK FALSE\n")
    out = ctx.drive("d_align.py", {"apply": ctx.scale(80, 1000), "align": ctx.scale(900, 15000), "bias": ctx.scale(120, 2000)}, timeout=ctx.scale(300, 2000))
    if out is None:
        return
    ctx.judge("MonAlign", out["cases"], cfg_extra=MON, chunk=3000)
