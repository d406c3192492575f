"""C18 undistortion."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("PanoFaces", "SPECIFICATION Spec\nINVARIANTS Cover Once Proper Ring\nCHECK_DEADLOCK FALSE\n")
    out = ctx.drive("d_undist.py", {"rec": ctx.scale(300, 4000), "full": ctx.scale(60, 800), "image": ctx.scale(150, 2500), "pano": ctx.scale(40, 500)}, timeout=ctx.scale(300, 2000))
    if out is None:
        return
    ctx.judge("MonUndist", out["cases"], cfg_extra=MON, chunk=3000)
