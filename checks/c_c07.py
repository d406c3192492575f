"""C07 poses and rigs."""
MON = "CONSTANTS Start <- MStart\nStep <- MStep\n"


def run(ctx):
    ctx.model_check("RigPose", "SPECIFICATION Spec\nCONSTANT MaxLen = 2\nINVARIANTS Placed Moved RigidInstances Laws\nCHECK_DEADLOCK FALSE\n")
    beh = ctx.generate("RigPose", "INIT Init\nNEXT Next\nCONSTANT MaxLen = 3\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", workers=4)
    ctx.rng.shuffle(beh)
    out = ctx.drive("d_pose.py", {"behaviours": beh[:ctx.scale(300, 6000)], "random": ctx.scale(250, 5000), "rigs": ctx.scale(200, 4000)})
    if out is None:
        return
    ctx.judge("MonPose", out["cases"], cfg_extra=MON, chunk=800)
