"""C06 copies are equal and independent."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"
MC = """CONSTANTS Fields = {"f", "g"}
 Vals = {0, 1}
 MaxObj = 3
 MaxLen = %d
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    ctx.model_check("CopyIso", "SPECIFICATION Spec\nINVARIANT Isolated\nPROPERTIES CopyEqual OneAtATime\n" + MC % 4)
    out = ctx.generate("CopyIso", "INIT Init\nNEXT Next\nACTION_CONSTRAINT Emit\n" + MC % 4)
    beh = list({str([(s["op"], s["i"]) for s in b]): b for b in out}.values())
    beh = [b for b in beh if any(s["op"] == "copy" for s in b)]
    ctx.rng.shuffle(beh)
    res = ctx.drive("d_copy.py", {"behaviours": beh, "random": ctx.scale(350, 6000)})
    if res is None:
        return
    ctx.judge("MonCopy", res["cases"], cfg_extra=MON, chunk=600)
