"""C02 tracks store: one relation under any edit history."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def store_model(ctx, maxlen=8):
    base = "CONSTANTS Shots = {1, 2}\n Tracks = {1, 2}\n Vals = {1, 2}\n MaxLen = %d\nVIEW RelView\nCHECK_DEADLOCK FALSE\n" % maxlen
    ctx.model_check("TracksStore", "SPECIFICATION Spec\nINVARIANTS Mirror OnePerCell CommonSymmetric PairsMatchCommon SubIdempotent\n" + base)
    return base


def run(ctx):
    base = store_model(ctx)
    # one history for every (abstract state, operation) pair
    behs = ctx.generate("TracksStore", "INIT Init\nNEXT Next\nACTION_CONSTRAINT Emit\n" + base)
    out = ctx.drive("d_tm.py", {"mode": "store", "behaviours": behs, "random": ctx.scale(150, 1500)})
    if out is None:
        return
    ctx.judge("MonTM", out["cases"], cfg_extra=MON, chunk=ctx.scale(4000, 4000))
