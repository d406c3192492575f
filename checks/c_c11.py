"""C11 feature matching."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("Matching", "SPECIFICATION Spec\nCONSTANTS Imgs = {1, 2, 3}\n Feats = {1, 2}\nINVARIANTS AllRead OnlyRefs\nCHECK_DEADLOCK FALSE\n")
    ctx.model_check("Matching", "INIT MInit\nNEXT MNext\nCONSTANTS Imgs = {}\n Feats = {}\nINVARIANTS OneToOne\nCHECK_DEADLOCK FALSE\n")
    out = ctx.drive("d_match.py", {"desc": ctx.scale(500, 4000), "filters": ctx.scale(120, 2000), "store": ctx.scale(120, 2000), "pairs": ctx.scale(40, 600)}, timeout=1500)
    if out is None:
        return
    ctx.judge("MonMatch", out["cases"], cfg_extra=MON, chunk=2500)
