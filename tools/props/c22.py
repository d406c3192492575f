P = dict(id="C22", title="Incremental reconstruction partitions images into models that fit their tracks",
  statement="The incremental reconstruction takes the candidate pairs in their order (at least 50 common tracks, at least 30 % of them not explained by a rotation, most first), starts only from pairs of free images and grows with whole rig instances whose resection has enough inliers until no image can be added; every image of the tracks is in exactly one reconstruction or reported as not reconstructed, reconstructions come largest first, and their points have at least two observations, equal to their tracks', within the outlier threshold, and a colour of their track. Exact views of one scene give one reconstruction of all images with the true geometry (in the true frame when positions are known); a resection adds the image with the pose, observations and rig mates of its inliers or changes nothing; reconstructing from a prior or from known poses keeps poses and cameras and triangulates the tracks with clear views. Bundling and retriangulation are due exactly when the counts of shots and points have grown by their configured amounts, the isolated and badly conditioned points removed are those beyond the mean plus deviations rule, and realigning a map to another moves its shots onto the other's and every point with its closest shot.",
  quantifier=dict(over=["inputs", "configurations", "histories"], text="every queue of the abstract reconstruction (TLC, 5 images, a rig instance, 6 pairs); every behaviour of the bundling counters (TLC; a sample replayed in each quick run); random datasets of 1-3 scenes, 2-15 images, rigs, isolated images, noise and outliers, four camera types and 16 configuration switches; random pairs, resections, priors, point clouds and map pairs"),
  why_tests_cant="Stock tests run the pipeline on two synthetic scenes and compare averages with thresholds; the bookkeeping across several reconstructions, rigs and failing pairs, the boundaries of the pair, resection and filter rules and realignment are not tested.",
  anchors=dict(files=["opensfm/reconstruction.py", "opensfm/src/sfm/src/map_helpers.cc", "opensfm/src/sfm/src/tracks_helpers.cc", "opensfm/src/sfm/src/retriangulation.cc", "opensfm/reconstruction_helpers.py"],
    state=[dict(name="remaining_images, reconstructions, report", meaning="what is still free, what was made", where="incremental_reconstruction"), dict(name="num_points_last, num_shots_last", meaning="counts at the last bundle", where="ShouldBundle, ShouldRetriangulate")],
    mechanism=[dict(name="incremental_reconstruction, bootstrap_reconstruction, grow_reconstruction, resect, add_shot", where="opensfm/reconstruction.py"), dict(name="compute_image_pairs, compute_image_pairs_sequential, pairwise_reconstructability", where="opensfm/reconstruction.py"), dict(name="FilterBadlyConditionedPoints, RemoveIsolatedPoints, RealignMaps, CountTracksPerShot", where="opensfm/src/sfm/src")],
    observe_at=["returned reconstructions and report; arguments and results of the public functions"], hook_needed=None),
  technique="TLA+ models of the reconstruction queue and of the bundling counters (TLC; counter behaviours replayed), and a TLA+ monitor that walks each recorded run through the queue model and decides geometry, resection, filters and realignment in fixed point",
  level_note="Which pairs and images succeed is decided only for exact data and clear margins; noisy runs are held to the bookkeeping, the thresholds and the tracks. Points within the margin of a filter's rule, and clouds whose sums overflow, are left out.")
