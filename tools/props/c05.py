P = dict(id="C05", title="The reconstruction graph stays consistent under every edit history",
  statement="After any sequence of creating, removing, observing, clearing, cleaning and deep-copying operations, a Reconstruction contains exactly the cameras, rigs, shots, panorama shots, landmarks and observations that the history implies, and every cross reference holds on both sides: shot to camera, rig camera and instance, instance to its shots, shot to landmark by landmark and by feature id, landmark to shot. Removing an object removes every reference to it, an operation on something absent, duplicated or still in use is refused with an error that changes nothing, and tracks managers exported from the graph describe the same observations.",
  quantifier=dict(over=["histories"], text="one history per (abstract state, operation) pair of a model with 2 shots, 1 panorama, 2 landmarks and 2 features, and random longer histories over larger id sets"),
  why_tests_cant="Unit tests apply one operation to one fixture; dangling or one-sided references appear only after particular sequences of removals, re-creations and copies.",
  anchors=dict(files=["opensfm/src/map/src/map.cc", "opensfm/src/map/src/shot.cc", "opensfm/src/map/src/landmark.cc", "opensfm/src/map/src/rig.cc", "opensfm/types.py"],
    state=[dict(name="Map", meaning="shots, landmarks, rigs and their mutual references", where="opensfm/src/map/map.h")],
    mechanism=[dict(name="creation/removal keep both ends of a reference in step", where="opensfm/src/map/src/map.cc")],
    observe_at=["types.Reconstruction and pymap.Map views and lookups"], hook_needed=None),
  technique="TLA+ (TLC) model of the graph with both ends of each reference; every (state, operation) history replayed in the real graph; TLA+ monitor judges every full dump",
  level_note="Exhaustive for the small model, random histories beyond it. Observing one landmark twice from one shot with different features, and misuse of handles to removed objects, are outside the histories.")
