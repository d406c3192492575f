"""C04 tracks survive saving and loading; bad files are rejected."""
from c_c02 import store_model, MON


def run(ctx):
    store_model(ctx)
    out = ctx.drive("d_tm.py", {"mode": "persist", "random": ctx.scale(250, 2500)})
    if out is None:
        return
    ctx.judge("MonTM", out["cases"], cfg_extra=MON, chunk=3000)
