"""C08 reconstructions and cameras survive serialisation."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("PersistRec", "SPECIFICATION Spec\nCONSTANTS P = {p, q}\n V = {1, 2}\n None = None\nINVARIANT RowsFaithful\nPROPERTY LoadReturnsSaved\nCHECK_DEADLOCK FALSE\n")
    out = ctx.drive("d_json.py", {"random": ctx.scale(160, 2500)})
    if out is None:
        return
    ctx.judge("MonSame", out["cases"], cfg_extra=MON, chunk=1500)
