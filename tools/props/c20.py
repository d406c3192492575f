P = dict(id="C20", title="Motions estimated from matches are the ones most of the matches agree on",
  statement="A robust estimator (line, absolute pose, absolute pose with known rotation, rotation, essential matrix, relative pose, similarity; RANSAC, MSAC, LMedS) always returns, its inliers are exactly the samples whose residual under the returned model is below the threshold, its score is the score of those residuals, and it finds the model of a consistent majority; the minimal and non-minimal solvers return the solution of exact problems and only rigid motions. Two-view reconstruction returns a rotation and translation whose reported inliers are exactly the matches within the threshold in both images, from whichever of the plane-based and five-point motions has more inliers, and a rotation-only motion the same; a homography is decomposed into the eight motions that give it back. Resecting an image adds it (with its rig instance) exactly when enough of its points are inliers, with the true pose of exact data and observations of exactly the inlier points, and changes nothing otherwise; common tracks of two reconstructions are those with the same feature of a shared image, and aligning them finds the similarity of the majority.",
  quantifier=dict(over=["inputs"], text="all sets of 5-6 grid points for the line estimator; random samples with 0-50 % outliers for all estimators, near and beyond the threshold, exact and noisy; random scenes (general, planar, rotation only, junk), homographies, resections in all camera types with and without rigs, pairs of reconstructions"),
  why_tests_cant="Stock tests run each estimator on one kind of fixed data and accept a tolerance on the model; inlier sets, scores, planar and degenerate scenes, rigs and common tracks are not tested.",
  anchors=dict(files=["opensfm/src/robust/robust_estimator.h", "opensfm/src/robust/scorer.h", "opensfm/src/geometry/relative_pose.h", "opensfm/src/geometry/absolute_pose.h", "opensfm/src/geometry/transform.h", "opensfm/multiview.py", "opensfm/reconstruction.py", "opensfm/matching.py"],
    state=[dict(name="best score, model and inliers of the estimator loop", meaning="what a robust estimation returns", where="robust::Estimate"), dict(name="shots and observations", meaning="what a resection adds to", where="types.Reconstruction")],
    mechanism=[dict(name="Estimate, scorers, local optimisation", where="opensfm/src/robust"), dict(name="EssentialFivePoints, EssentialNPoints, RelativePoseFromEssential, RelativePoseRefinement, AbsolutePoseThreePoints/NPoints, RotationBetweenPoints", where="opensfm/src/geometry"), dict(name="two_view_reconstruction*, resect, corresponding_tracks, resect_reconstruction", where="opensfm/reconstruction.py"), dict(name="compute_inliers_bearings, compute_inliers_bearing_epipolar", where="opensfm/matching.py"), dict(name="motion_from_plane_homography", where="opensfm/multiview.py")],
    observe_at=["results of the functions; reconstruction after resection"], hook_needed=None),
  technique="TLA+ models of rigid two-view geometry on the lattice, of the RANSAC loop and of line sets (TLC; every enumerated line set is replayed), and a TLA+ monitor that recomputes residuals, inlier sets, scores, decompositions and triangulations in fixed point",
  level_note="Samples within 3e-5 rad of a threshold may go either way; random sampling may miss: rates (95 %) or enough iterations for certainty in practice (400 at 80 % inliers) are required instead. Returned models need only be as close to the truth as the threshold allows.")
