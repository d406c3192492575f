P = dict(id="C26", title="Depth maps, their cleaning and merging, and meshes follow the scene",
  statement="Estimated depths of textured, unmasked pixels that a neighbour sees are those of the scene, with scores at most 1, the neighbour that sees them best, none at the border, at masked or flat pixels (patch match) or outside the range; the range is the 10th and 90th percentile of the shot's points widened by a tenth unless configured, and neighbours are the shots with 50 common tracks and more than 20 points seen at 3 to 30 degrees, best first. Cleaning keeps exactly the depths that enough views agree on; pruning drops exactly the points that another view sees as far or farther at a finer scale, and each point has the position, normal, colour and label of its pixel; the computation can be stopped before any result is stored and resumed with the same outcome, shots whose pictures can not be read get no depth maps and leave the others alone, nothing stored is computed again, and the merged cloud is the pruned ones in order. The mesh of a shot has exactly the points it observes (in its image) plus the frame of its camera type, its faces are triples of its vertices that cover the image once (or close around a panorama), and the corners of a perspective image lie at the mean depth of the points beside them.",
  quantifier=dict(over=["inputs", "histories", "fault and stop points"], text="rows of 3 pixels with depths {none, near, far} in 3 views (1500 of 61857 TLC behaviours per run) and random views with integer geometry in 24 orientations, decided in exact rational arithmetic; random textured scenes of two walls for the three estimators; three runs over 4 graphs of neighbours with an unreadable picture and a stop before any stored result (120 of 5056 TLC behaviours per run); random meshes of nine camera types"),
  why_tests_cant="Stock tests estimate one fronto-parallel patch and clean and prune one trivial view; agreement, redundancy, faults and resuming are never exercised.",
  anchors=dict(files=["opensfm/dense.py", "opensfm/src/dense/src/depthmap.cc", "opensfm/mesh.py", "opensfm/actions/compute_depthmaps.py", "opensfm/actions/mesh.py"],
    state=[dict(name="depthmaps/*.raw|clean|pruned.npz", meaning="results of the three passes, per shot", where="undistorted dataset"), dict(name="merged.ply", meaning="all pruned points", where="undistorted dataset")],
    mechanism=[dict(name="DepthmapEstimator, DepthmapCleaner, DepthmapPruner", where="opensfm/src/dense/src/depthmap.cc"), dict(name="compute_depthmaps, clean_depthmap, prune_depthmap, merge_depthmaps, find_neighboring_images, compute_depth_range", where="opensfm/dense.py"), dict(name="triangle_mesh", where="opensfm/mesh.py")],
    observe_at=["results of pydense objects, of dense and mesh functions; files stored by compute_depthmaps"], hook_needed=None),
  technique="TLA+ state machine of the three passes with faults, stops and resumption (TLC; behaviours replayed through compute_depthmaps with faults injected in the dataset), TLA+ model of agreeing views, and a TLA+ monitor that decides cleaning and pruning in rational arithmetic",
  level_note="Pixels whose reprojection falls within a thousandth of a threshold or exactly on a boundary may go either way. The patch-match estimators are random: at least 60% of the textured pixels must be within 4% of the scene. BRUTE_FORCE ignores masks, as in the code. A result file cut short by a power failure is out of scope.")
