P = dict(id="C19", title="Triangulated points meet their observations; outlier removal is exact",
  statement="A triangulated point is accepted exactly when two of its rays make at least the minimum angle and every ray passes within the reprojection threshold of it at no less than the minimum depth; it is the point closest to the rays (or, refined, one of no larger angular cost), and exact observations give the true point by every method (midpoint, DLT, robust), in any camera model and rig. Triangulating the tracks of a reconstruction gives a point to every visible track that passes, whose observations are its inliers with their attributes unchanged, and leaves existing points alone; the robust method finds any consistent pair of three observations. Removing outliers removes exactly the observations whose reprojection error (in all its components) exceeds the threshold, then the points left with fewer than two, of the listed points only.",
  quantifier=dict(over=["inputs"], text="random rays, near and far, well and badly spread, exact, noisy, at the threshold, with a wrong or reversed ray; random reconstructions (all camera types, rigs) with tracks; random reprojection errors of 2 and 3 components"),
  why_tests_cant="Stock tests triangulate one or two fixed pairs of rays and no track of a reconstruction; outlier removal is not tested.",
  anchors=dict(files=["opensfm/reconstruction.py", "opensfm/src/geometry/src/triangulation.cc", "opensfm/src/geometry/triangulation.h"],
    state=[dict(name="points of the reconstruction with coordinates, observations and reprojection errors", meaning="the sparse structure", where="types.Reconstruction")],
    mechanism=[dict(name="TrackTriangulator.triangulate / triangulate_robust / triangulate_dlt, triangulate_shot_features, retriangulate, remove_outliers", where="opensfm/reconstruction.py"), dict(name="TriangulateBearingsMidpoint/DLT, TriangulateTwoBearings, PointRefinement, EpipolarAngle", where="opensfm/src/geometry")],
    observe_at=["results of pygeometry.triangulate_*; points and observations after the call"], hook_needed=None),
  technique="TLA+ model of integer rays through a common point (TLC checks unique solvability, the effect of parallel, reversed and extra rays); a TLA+ monitor recomputes angles, depths, closest points, costs, medians and thresholds in fixed point",
  level_note="Angles within 3e-5 rad of a threshold may go either way. A robust triangulation may by chance accept a wrong pair that happens to be consistent; the rate of misses is judged over 300 tracks (limit 10 %, expected below 2 %).")
