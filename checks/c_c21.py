"""C21 bundle adjustment."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    graphs = ctx.generate("Neighborhood", "SPECIFICATION Spec\nCONSTANTS N = 4\nPOINTS = 3\nRIGS <- Rigs4\nINVARIANTS Closed Apart Covered InteriorMoves Within Exact Agrees Emit\nCHECK_DEADLOCK FALSE\n", workers=6)
    ctx.rng.shuffle(graphs)
    out = ctx.drive("d_bundle.py", {"adjust": ctx.scale(90, 900), "near": graphs[:ctx.scale(1500, 12000)], "randnear": ctx.scale(300, 3000), "detect": ctx.scale(100, 800)}, timeout=ctx.scale(400, 3000))
    if out is None:
        return
    ctx.judge("MonBundle", out["cases"], cfg_extra=MON, chunk=400)
