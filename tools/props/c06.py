P = dict(id="C06", title="Copies and pickles equal their original and share nothing with it",
  statement="Copying, deep-copying or pickling a camera, pose, shot measurement, rig camera or observation, and deep-copying a whole reconstruction (with its observations on request, and without them otherwise), yields an object equal to the original in every attribute. From then on no edit to, or destruction of, one of them is ever visible in the other.",
  quantifier=dict(over=["histories", "inputs"], text="all interleavings of copy, write and destroy up to depth 4 over 3 objects, plus random histories up to 8 steps; all ten projection models; reconstructions with rigs, panoramas, biases, metadata, colours, meshes and observations"),
  why_tests_cant="Tests copy one object once and compare a few attributes; sharing or a lost attribute shows only when a particular field is written or the original is destroyed after the copy.",
  anchors=dict(files=["opensfm/types.py", "opensfm/src/map/src/map.cc", "opensfm/src/map/src/shot.cc", "opensfm/src/map/python/pybind.cc", "opensfm/src/geometry/python/pybind.cc", "opensfm/src/geometry/pose.h"],
    state=[dict(name="objects", meaning="the attribute values of every live object", where="opensfm/src/map, opensfm/src/geometry")],
    mechanism=[dict(name="deep copy", where="opensfm/src/map/src/map.cc Map::DeepCopy"), dict(name="pickle tuples", where="opensfm/src/*/python/pybind.cc py::pickle")],
    observe_at=["attributes of the original and of all copies after every step"], hook_needed=None),
  technique="TLA+ heap model (fresh cells per copy, checked in TLC); its histories replayed on the real types and judged by a TLA+ monitor",
  level_note="Every attribute readable from Python is compared; observations of panorama shots are out of scope.")
