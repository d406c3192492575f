"""C10 image pair selection."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"
BASE = "CONSTANTS Images = %s\n Places = %s\n Ks = %s\n"


def run(ctx):
    four = '{"a", "b", "c", "d"}'
    out = ctx.generate("PairSel", "SPECIFICATION Spec\n" + BASE % (four, "{0}", "{0}") +
                       "INVARIANTS OnceEach FirstIsRef Complete Emit\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", workers=4)
    ordered = list({str(b): b for b in out}.values())
    small = ctx.generate("PairSel", "INIT SInit\nNEXT SNext\n" + BASE % ('{"a", "b", "c"}', "{0, 1, 3}", "{0, 1, 2}") +
                         "INVARIANTS MustInMay EnoughFound SEmit\nCHECK_DEADLOCK FALSE\n", workers=4)
    small = list({str(b): b for b in small}.values())
    ctx.rng.shuffle(small)
    small = small[:ctx.scale(2500, len(small))]
    ctx.rng.shuffle(ordered)
    res = ctx.drive("d_pairs.py", {"ordered": ordered, "small": small, "random": ctx.scale(300, 4000)})
    if res is None:
        return
    ctx.judge("MonPairs", res["cases"], cfg_extra=MON, chunk=4000)
