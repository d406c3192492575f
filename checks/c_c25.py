"""C25 exports."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    beh = ctx.generate("Export", "SPECIFICATION Spec\nCONSTANTS NI = 3\nNT = 2\nRECS = 2\nONLYS <- O1\nINVARIANTS Faithful Dense Emit\nCHECK_DEADLOCK FALSE\n", workers=6)
    ctx.rng.shuffle(beh)
    out = ctx.drive("d_export.py", {"specs": beh[:ctx.scale(250, 4000)], "rand": ctx.scale(200, 3000), "db": ctx.scale(40, 400)}, timeout=ctx.scale(300, 3000))
    if out is None:
        return
    ctx.judge("MonExport", out["cases"], cfg_extra=MON, chunk=600)
