P = dict(id="C21", title="Bundle adjustment moves only what is free, to a minimum of the robust objective",
  statement="Global, local and pose-only adjustment change nothing but the things that take part (global: all instances and points, cameras and rig cameras when they are to be optimised, biases; local: the instances of the neighborhood and the points they see; poses: the instances whose images are all listed), report how many images, points and projections took part, and leave on every point that took part its reprojection errors at the result; the neighborhood of an image is the whole rig instances reached by repeatedly adding the images with the most (and enough) common points up to the maximum, and its boundary every other instance seeing one of its points. The result costs no more than the start, and no small step of any instance pose, point, camera parameter, rig camera, bias or control point lowers the objective: robust image, depth-prior and control-point residuals (control points weighted to their global share), GPS averaged over each rig instance, up-vector and parameter priors; scenes with exact data are recovered. Alignment is by orientation when there are fewer than three GPS positions and triangulated control points or they lie on a line, and naive otherwise.",
  quantifier=dict(over=["inputs", "configurations"], text="every observation graph of 4 images, 3 points and their rig groupings x center x radius x minimum x maximum of the model (a sample of them in each quick run), random larger ones; random scenes over all camera types, 1-3 image rigs, 5 robust losses, depth priors, GPS, biases, control points with and without altitude, exact and noisy with outliers"),
  why_tests_cant="Stock tests adjust two or three images of one camera type with trivial loss and look at a position; frame conditions, local and pose adjustment, control-point weights, depth priors and minimality are not tested.",
  anchors=dict(files=["opensfm/src/sfm/src/ba_helpers.cc", "opensfm/src/bundle/src/bundle_adjuster.cc", "opensfm/src/bundle/bundle_adjuster.h", "opensfm/src/bundle/src/reprojection_errors.cc", "opensfm/reconstruction.py"],
    state=[dict(name="poses, points, cameras, rig cameras, biases of the map", meaning="what an adjustment may move", where="map::Map"), dict(name="interior and boundary", meaning="which images take part in a local adjustment", where="BAHelpers::ShotNeighborhood")],
    mechanism=[dict(name="Bundle, BundleLocal, BundleShotPoses, ShotNeighborhood, DetectAlignmentConstraints, AddGCPToBundle", where="opensfm/src/sfm/src/ba_helpers.cc"), dict(name="BundleAdjuster::Run, ComputeReprojectionErrors", where="opensfm/src/bundle/src/bundle_adjuster.cc"), dict(name="bundle, bundle_local, bundle_shot_poses, shot_neighborhood", where="opensfm/reconstruction.py")],
    observe_at=["the reconstruction before and after; returned reports; residuals of the public projection functions around the result"], hook_needed=None),
  technique="TLA+ model of neighborhoods over all small observation graphs (TLC; behaviours replayed through the real neighborhood functions), and a TLA+ monitor that evaluates frame conditions and the objective in fixed point at the result and at steps along every free coordinate",
  level_note="Minimality is along coordinates, with steps of 0.003 rad / 1.5-2 cm and a slack of 0.3 % of the cost; local and pose adjustments are limited to ten iterations by the code, so their minimality is required only when they report convergence. Results with residuals beyond 19 deviations, ties in the neighborhood order, instances mixing cameras under bias compensation, and parameters the code gives no prior deviation (K5, K6, S*) are left out.")
