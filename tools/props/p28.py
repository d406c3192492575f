P = dict(id="C28", title="The annotation tool keeps, saves and analyses control points without loss",
  statement="A new control point of the annotation tool has a name that no point has or was given before, a point has the annotations made and not removed, in order and at most one added per image, a removed point or annotation leaves everything else as it is, and an annotation's position (deviation 100 by default) replaces the point's only when one is given. Saving and loading give back every point, position and 2D or 3D annotation (also from the documented files, without measurement time or precision), which the pipeline reads the same, and the tool names the points visible in an image, the control point and the image of the largest known error, zero once its annotation is removed. The analysis of annotations reprojects each point triangulated in every image annotated, with its error, gives its distance to the measured position in space and in plan, counts and sorts the errors, finds the similarity between two sets of points, resects images from their annotations, and merges reconstructions without loss so that splitting gives them back.",
  quantifier=dict(over=["histories", "inputs"], text="every history of 4 operations of the model over two images with and without a file (a sample replayed in each quick run, 6 operations checked in thorough runs), random histories of up to 40 operations on files with any field missing; random annotated scenes"),
  why_tests_cant="There are no tests of the annotation tool.",
  anchors=dict(files=["annotation_gui_gcp/lib/gcp_manager.py", "annotation_gui_gcp/run_ba.py", "opensfm/io.py"],
    state=[dict(name="points, gcp_reprojections", meaning="control points with their annotations; known errors", where="annotation_gui_gcp/lib/gcp_manager.py"), dict(name="ground_control_points.json", meaning="saved control points", where="dataset")],
    mechanism=[dict(name="GroundControlPointManager: add_point, remove_gcp, add_point_observation, remove_point_observation, load_from_file, write_to_file, get_visible_points_coords, get_worst_gcp, shot_with_max_gcp_error", where="annotation_gui_gcp/lib/gcp_manager.py"), dict(name="reproject_gcps, gcp_geopositional_error, get_number_of_wrong_annotations_per_gcp, get_sorted_reprojection_errors, find_alignment, resect_annotated_single_images, merge_reconstructions, resplit_reconstruction", where="annotation_gui_gcp/run_ba.py")],
    observe_at=["results of the public functions; the file of control points"], hook_needed=None),
  technique="TLA+ model of the book of control points (TLC; its histories replayed through the real manager), and a TLA+ monitor that keeps the book itself, decides every operation and the analysis in fixed point",
  level_note="The browser side and the bundle adjustment of run_ba are not run; resected poses are decided by the threshold of the code on the annotations' directions.")
