P = dict(id="C27", title="Statistics of a dataset are those of its reconstructions",
  statement="The statistics give the numbers of components, shots, points, observations, images and tracks, the histogram and mean of the lengths of tracks, whether more than two shots have a position, and the means and 30-bin histograms of the residuals (normalized by scale, in pixels, angular) over the observations of reconstructed points with at most 4 pixels of error. The area is that of the box around all cameras, times and their total come from the reports present, and the summary (least, most, mean, median) of features detected is over reconstructed images and of features reconstructed over images with some. Position errors undo the bias of the camera, control point errors use the first reconstruction that triangulates the point, both as mean, deviation, root mean square and average norm, cameras and rig cameras show initial values and those of the largest reconstruction that has them, a heatmap is drawn for every camera and residuals for each with observations, and decimation keeps the number of points asked for.",
  quantifier=dict(over=["inputs"], text="every pair of reconstructions with up to 2 points of lengths 1-3 and 3 positions of the model (a sample replayed in each quick run), random sets of up to 3 reconstructions with up to 6 shots, 3 cameras, rigs, biases, positions, control points and reports"),
  why_tests_cant="Stock tests compute the statistics of one synthetic scene around the origin and compare loose ranges.",
  anchors=dict(files=["opensfm/stats.py", "opensfm/actions/compute_statistics.py", "opensfm/src/map/src/map.cc"],
    state=[dict(name="stats.json", meaning="statistics of the dataset", where="stats folder of the dataset")],
    mechanism=[dict(name="reconstruction_statistics, processing_statistics, features_statistics, cameras_statistics, rig_statistics, gps_errors, gcp_errors, save_heatmap, save_residual_grids, decimate_points", where="opensfm/stats.py"), dict(name="ComputeReprojectionErrors, GetValidObservations", where="opensfm/src/map/src/map.cc"), dict(name="run_dataset", where="opensfm/actions/compute_statistics.py")],
    observe_at=["results of the public functions; files of the stats folder"], hook_needed=None),
  technique="TLA+ model of gathering lengths and boxes over reconstructions (TLC; configurations replayed through the real functions), and a TLA+ monitor that recomputes every statistic in fixed point",
  level_note="The pictures are only required to exist. The average length of tracks over two is decided when the shortest track has two observations: a stock test pins that single observations, not pairs, are left out when there are some. Angles that are not numbers, for exact observations, are left out by the code.")
