"""C03 queries over tracks agree with the stored observations."""
from c_c02 import store_model, MON


def run(ctx):
    store_model(ctx)
    out = ctx.drive("d_tm.py", {"mode": "query", "random": ctx.scale(200, 2500)})
    if out is None:
        return
    ctx.judge("MonTM", out["cases"], cfg_extra=MON, chunk=2000)
