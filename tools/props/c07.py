P = dict(id="C07", title="Poses are rigid motions and every shot follows its rig",
  statement="However a pose or similarity is built or modified, all its accessors describe one rigid (or similarity) motion, and composing, inverting, taking relative poses and transforming points one by one or in bulk agree with exact rigid-motion algebra. After any history of creating shots and setting rig instance poses, rig camera poses or an instance's pose through one of its shots, every shot's pose is its rig camera's pose composed with its instance's pose; moving a shot directly works only for a shot alone in its instance with an identity rig camera and is otherwise refused, changing nothing.",
  quantifier=dict(over=["histories", "inputs"], text="all length-3 histories over 3 instances, 3 rig cameras, 4 shots and 3 poses (sampled in the quick tier), random longer ones; motions from the 24 axis rotations and rational rotations of denominator 3, 5, 7 with integer translations, so that the oracle is exact"),
  why_tests_cant="Tests compare a few poses to hand-computed ones; an accessor gone stale or a rig convention broken for one kind of update shows only in particular setter sequences.",
  anchors=dict(files=["opensfm/src/geometry/pose.h", "opensfm/src/geometry/similarity.h", "opensfm/src/map/src/rig.cc", "opensfm/src/map/src/shot.cc", "opensfm/types.py"],
    state=[dict(name="world_to_cam_/cam_to_world_", meaning="both directions of a pose", where="opensfm/src/geometry/pose.h"), dict(name="RigInstance pose_, RigCamera pose", meaning="what shot poses derive from", where="opensfm/src/map/rig.h")],
    mechanism=[dict(name="pose composition", where="opensfm/src/map/src/shot.cc GetPoseInRig, opensfm/src/map/src/rig.cc UpdateInstancePoseWithShot")],
    observe_at=["Pose and Similarity accessors, Shot.pose, RigInstance.pose, RigCamera.pose"], hook_needed=None),
  technique="Exact rational rigid-motion algebra and a rig state machine in TLA+ (laws checked in TLC); model histories and random ones replayed in the real code and judged by a TLA+ monitor",
  level_note="Motions are restricted to rational ones so that the oracle has no rounding; results compared to 2e-4.")
