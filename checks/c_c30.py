"""C30 positions from GPS tracks."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS POS = {0, 1, 2, 3, 5}\nLEN = %d\nSTEPS = {0, 1, 2, 3}\nINVARIANTS Apart Near Bounded Agrees Emit\nCHECK_DEADLOCK FALSE\n"
    beh = ctx.generate("TrackWalk", cfg % ctx.scale(4, 6), workers=6)
    ctx.rng.shuffle(beh)
    out = ctx.drive("d_gpx.py", {"walks": beh[:ctx.scale(600, 6000)], "interp": ctx.scale(1500, 20000), "tag": ctx.scale(600, 8000), "sample": ctx.scale(300, 4000), "read": ctx.scale(150, 1500), "video": ctx.scale(80, 800), "update": ctx.scale(40, 400)}, timeout=ctx.scale(300, 3000))
    if out is None:
        return
    ctx.judge("MonGpx", out["cases"], cfg_extra=MON, chunk=700)
