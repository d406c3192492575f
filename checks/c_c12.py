"""C12 camera models."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("CameraModel", "SPECIFICATION Spec\nINVARIANTS Trig Grows RayOnly\nCHECK_DEADLOCK FALSE\n")
    out = ctx.drive("d_cam.py", {"random": ctx.scale(500, 8000)})
    if out is None:
        return
    ctx.judge("MonCam", out["cases"], cfg_extra=MON, chunk=300)
