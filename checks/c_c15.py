"""C15 metadata and cameras."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("ExifMeta", "SPECIFICATION Spec\nINVARIANTS Calendar Conventions\nCHECK_DEADLOCK FALSE\n")
    out = ctx.drive("d_exif.py", {"single": ctx.scale(700, 12000), "cameras": ctx.scale(250, 4000), "runs": ctx.scale(60, 800)}, timeout=ctx.scale(300, 2000))
    if out is None:
        return
    ctx.judge("MonExif", out["cases"], cfg_extra=MON, chunk=3000)
