"""C29 the steps of the pipeline."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"
CFG = "%sCONSTANTS First = {\"a\", \"b\", \"c\"}\nLate = {\"d\"}\nLEN = %d\nINVARIANTS Types %s\n%sCHECK_DEADLOCK FALSE\n"


def pick(ctx, beh, n):
    """A sample, the rarer last steps as often as the others."""
    seen = {}
    for b in beh:
        seen[str(b)] = b
    beh = [seen[k] for k in sorted(seen)]
    ctx.rng.shuffle(beh)
    by = {}
    for b in beh:
        by.setdefault((b[-1]["op"], b[-1]["k"], any(x["op"] == "arrive" for x in b)), []).append(b)
    out = []
    while len(out) < n and any(by.values()):
        for k in sorted(by):
            if by[k] and len(out) < n:
                out.append(by[k].pop())
    return out


def run(ctx):
    begin = ctx.generate("PipeRun", CFG % ("SPECIFICATION Spec\n", ctx.scale(6, 7), "Emit Resumes", "PROPERTY Grows\n"), workers=6)
    later = ctx.generate("PipeRun", CFG % ("INIT Init2\nNEXT Next\n", ctx.scale(8, 9), "Emit", ""), workers=6)
    order = ["extract_metadata", "detect_features", "match_features", "create_tracks", "reconstruct"]
    whole = [dict(op=o, k=0) for o in order]
    full = [whole + [dict(op="arrive", k=0)] + whole + [dict(op="extend_reconstruction", k=0)]]
    n = ctx.scale(16, 400)
    hist = full * ctx.scale(8, 100) + pick(ctx, begin, n) + pick(ctx, later, 2 * n)
    out = ctx.drive("d_pipe.py", {"pipe": hist, "seed": ctx.seed}, timeout=ctx.scale(300, 3000))
    if out is None:
        return
    ctx.judge("MonPipe", out["cases"], cfg_extra=MON, chunk=600)
