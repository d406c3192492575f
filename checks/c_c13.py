"""C13 feature masks and baked labels."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("MaskAlg", "SPECIFICATION Spec\nINVARIANTS One Injective Undo Turn\nCHECK_DEADLOCK FALSE\n")
    out = ctx.drive("d_mask.py", {"random": ctx.scale(250, 4000)})
    if out is None:
        return
    ctx.judge("MonMask", out["cases"], cfg_extra=MON, chunk=1500)
