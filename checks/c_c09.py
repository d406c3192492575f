"""C09 dataset storage."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"
MC = """SPECIFICATION Spec
CONSTANTS Kinds = {"k1", "k2"}
 Names = {"n1", "n2"}
 Values = {"v1", "v2"}
 MaxLen = %d
 None = "none"
INVARIANTS LastWriteWins %s
PROPERTY Frame
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    out = ctx.generate("Store", MC % (4, "Emit"), workers=4)
    beh = list({str(b): b for b in out}.values())
    ctx.rng.shuffle(beh)
    res = ctx.drive("d_store.py", {"behaviours": beh[:ctx.scale(900, len(beh))], "random": ctx.scale(25, 300),
                                   "layouts": ctx.scale(60, 600)})
    if res is None:
        return
    ctx.judge("MonStore", res["cases"], cfg_extra=MON, chunk=2000)
