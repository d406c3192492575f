"""C26 depth maps and meshes."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"
PAIR = "<<2>>, <<1>>, <<>>"


def run(ctx):
    run_cfg = ("SPECIFICATION Spec\nCONSTANTS N = 3\nGRAPHS <- Graphs\nMAXRUNS = 3\nINVARIANTS Chain Own Same Emit\nCHECK_DEADLOCK FALSE\n")
    runs = ctx.generate("DenseRunMC", run_cfg, workers=4)
    ctx.rng.shuffle(runs)
    rows = ctx.generate("DenseRow", "SPECIFICATION Spec\nCONSTANTS W = 3\nDEPTHS = {0, 2, 4}\nBASES = {1, 2}\nF = 2\nINVARIANTS Fewer Alone Emit\nCHECK_DEADLOCK FALSE\n", workers=6)
    ctx.rng.shuffle(rows)
    out = ctx.drive("d_dense.py", {"runs": runs[:ctx.scale(120, 2000)], "rows": rows[:ctx.scale(1500, 20000)], "clean": ctx.scale(1200, 20000), "prune": ctx.scale(1200, 20000),
                                   "estim": ctx.scale(60, 800), "neigh": ctx.scale(150, 2000), "range": ctx.scale(150, 2000), "mesh": ctx.scale(250, 4000)}, timeout=ctx.scale(300, 3000))
    if out is None:
        return
    ctx.judge("MonDense", out["cases"], cfg_extra=MON, chunk=1500)
