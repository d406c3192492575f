P = dict(id="C12", title="Every camera model maps rays to pixels and back as defined",
  statement="For each of the ten camera models and any parameters, however they were set, projecting a point gives the image point its projection, distortion and affine formulas define, and inside the model's invertible domain the bearing of a pixel is the unit vector that projects back to it; single and bulk calls, shots (through their pose) and pixel mappings between two cameras agree. Setting a parameter by name, vector or attribute changes exactly that parameter in every view (map, attributes, distortion vector, calibration matrices), is refused if the model lacks it, and pixel and normalized coordinates are exact inverses centred on the image and scaled by its longest side.",
  quantifier=dict(over=["inputs", "histories"], text="random parameters (mild for bearings, strong for projections) of all ten models including zero coefficients, points on and near the optical axis, behind the camera for fisheye and spherical models, image sizes from 1x1, and random histories of parameter updates between the operations"),
  why_tests_cant="Tests project a handful of points with one parameter set per model; a wrong coefficient order or singular pixel shows only for particular models, parameters or points.",
  anchors=dict(files=["opensfm/src/geometry/camera_projections_functions.h", "opensfm/src/geometry/camera_distortions_functions.h", "opensfm/src/geometry/camera_instances.h", "opensfm/src/geometry/src/camera.cc", "opensfm/src/geometry/python/pybind.cc", "opensfm/features.py"],
    state=[dict(name="types_/values_", meaning="the parameters of a camera in storage order", where="opensfm/src/geometry/camera.h")],
    mechanism=[dict(name="projection, distortion and affine functors with Newton inversion", where="opensfm/src/geometry/camera_*_functions.h")],
    observe_at=["Camera.project(_many), pixel_bearing(_many), get_K*, parameter accessors, pixel/normalized conversions, Shot.project/bearing, compute_camera_mapping"], hook_needed=None),
  technique="TLA+ definition of all ten models in fixed-point arithmetic (with its own trigonometry, laws checked in TLC); a TLA+ monitor recomputes every recorded projection, bearing and parameter view",
  level_note="Agreement to about 2e-4 in normalized coordinates; bearings are checked by projecting them forward, for mild distortions.")
