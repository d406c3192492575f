P = dict(id="C17", title="Alignment brings reconstructions onto GPS and control points",
  statement="Applying a similarity moves all points and cameras (rigs included) as one: positions become s A x + b, orientations turn with A, and every projection of a point into a camera stays the same. align_reconstruction applies the similarity it returns, chosen from the GPS positions (averaged per rig instance) and triangulable control points the configuration enables: exact measurements are met exactly; noisy ones are fitted by the least-squares rotation, centroid and scale ratio; a single position gives a translation; the orientation prior (forced, or when fewer than three positions or positions on a line are known) leaves the cameras level and upright as configured, whatever the stored image orientation, and meets the positions in the horizontal plane; rigs with several cameras keep their scale. With GPS bias compensation the reconstruction follows the control points alone, each camera's bias brings its GPS positions onto the reconstruction, and without control points nothing changes.",
  quantifier=dict(over=["inputs"], text="random reconstructions of 1-6 images or two-camera rigs, spread, on a line or at one place, turned and scaled at random, with partial GPS, 0-5 control points (some unseen, unknown or without position), all alignment methods and priors, noise on or off, biases per camera"),
  why_tests_cant="Tests align a few well-conditioned scenes within loose errors; degenerate layouts, rigs, image orientations and biases are not checked.",
  anchors=dict(files=["opensfm/align.py", "opensfm/multiview.py", "opensfm/transformations.py"],
    state=[dict(name="shot poses, rig poses, points, biases", meaning="the geometry being moved", where="types.Reconstruction")],
    mechanism=[dict(name="align_reconstruction, apply_similarity, set_gps_bias, detect_alignment_constraints", where="opensfm/align.py"), dict(name="fit_plane, triangulate_gcp", where="opensfm/multiview.py")],
    observe_at=["positions, orientations and projections before and after; the returned similarity"], hook_needed=None),
  technique="TLA+ model of similarities acting on points, poses and rigs (invariant images, composition, what constraints determine, checked exhaustively in TLC); a TLA+ monitor chooses the method and checks the optimality conditions in fixed point",
  level_note="Positions compared to 2.5 mm; the noisy fit is decided by centroid, symmetric correlation and variance ratio; control points without altitude and nearly-collinear layouts are excluded.")
