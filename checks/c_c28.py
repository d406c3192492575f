"""C28 annotation tool."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Shots = {\"s1\", \"s2\"}\nLEN = %d\nFiles <- F1\nINVARIANTS Names OnePerImage NeverReused%s\nPROPERTIES RoundTrip\nCHECK_DEADLOCK FALSE\n"
    if ctx.scale(0, 1):
        ctx.model_check("GcpBook", cfg % (6, ""))
    beh = ctx.generate("GcpBook", cfg % (4, " Emit"), workers=6)
    ctx.rng.shuffle(beh)
    out = ctx.drive("d_gcp.py", {"book": beh[:ctx.scale(1500, 10000)], "randbook": ctx.scale(600, 8000), "reproj": ctx.scale(300, 4000), "merge": ctx.scale(150, 2000), "align": ctx.scale(200, 3000), "resect": ctx.scale(60, 800)}, timeout=ctx.scale(300, 3000))
    if out is None:
        return
    ctx.judge("MonGcp", out["cases"], cfg_extra=MON, chunk=600)
