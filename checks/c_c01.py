"""C01 track creation = valid connected components of the match graph."""


def run(ctx):
    cfg = """SPECIFICATION Spec
CONSTANTS Images = {1, 2, 3}
 Feats = {0, 1}
 MinLen = 2
 MaxLinks = %d
INVARIANTS PartitionIsComponents TracksDisjoint TracksValid
PROPERTY Coarsens
VIEW EdgeView
CHECK_DEADLOCK FALSE
""" % ctx.scale(5, 12)
    ctx.model_check("TrackBuild", cfg)
    gen = """INIT Init
NEXT Next
CONSTANTS Images = {1, 2, 3}
 Feats = {0, 1}
 MinLen = 2
 MaxLinks = %d
VIEW EdgeView
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % ctx.scale(4, 6)
    behs = ctx.generate("TrackBuild", gen)
    out = ctx.drive("d_tracks.py", {"behaviours": behs, "random": ctx.scale(220, 3000)})
    if out is None:
        return
    ctx.judge("MonTracks", out["cases"], cfg_extra="CONSTANTS Start <- MStart\nStep <- MStep\n", chunk=3000)
    ctx.assumptions += [
        "every image that appears in a match list has features (as produced by matching)",
        "feature ids are distinct per image; attributes are compared as exact decimal strings",
    ]
