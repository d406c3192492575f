"""C05 reconstruction graph: mirrored references and cascades under any edit history."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    base = 'CONSTANTS ShotIds = {%s}\n PanoIds = {%s}\n LmIds = {"x", "y"}\n Feats = {1, 2}\n MaxLen = %d\nVIEW View\nCHECK_DEADLOCK FALSE\n'
    for shots, panos in (('"a", "b"', ''), ('"a"', '"q"')):
        b = base % (shots, panos, ctx.scale(9, 12))
        ctx.model_check("MapGraph", "SPECIFICATION Spec\nINVARIANTS Mirrored NoDangling\n" + b)
        behs = ctx.generate("MapGraph", "INIT Init\nNEXT Next\nACTION_CONSTRAINT Emit\n" + b)
        out = ctx.drive("d_map.py", {"behaviours": behs, "random": ctx.scale(150, 2000) if not panos else 0,
                                     "shots": eval("[%s]" % shots), "panos": eval("[%s]" % panos)})
        if out is None:
            return
        ctx.judge("MonMap", out["cases"], cfg_extra=MON, chunk=4000)
