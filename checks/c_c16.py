"""C16 geographic coordinates."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("GeoFrame", "SPECIFICATION Spec\nINVARIANTS OnEllipsoid Ortho Radii\nCHECK_DEADLOCK FALSE\n")
    out = ctx.drive("d_geo.py", {"near": ctx.scale(500, 8000), "far": ctx.scale(300, 5000), "gcp": ctx.scale(250, 4000), "ref": ctx.scale(80, 1000), "export": ctx.scale(50, 600)},
                    timeout=ctx.scale(300, 2000))
    if out is None:
        return
    ctx.judge("MonGeo", out["cases"], cfg_extra=MON, chunk=3000)
