P = dict(id="C25", title="Exported files describe the same cameras, poses, points and observations",
  statement="A reader that follows the documentation of Bundler, COLMAP (text, binary and database), VisualSFM (NVM), PMVS, OpenMVS and PLY finds in the exported files the images of the reconstruction (only the listed ones when an image list is given), and projecting any world point with the camera and pose in the file gives the pixel that OpenSfM's camera and pose give (Bundler ignores the principal point and higher distortion of brown cameras). The points have their position and colour, and their views are exactly their observations in those images, each with the right image, feature and coordinates (NVM lists points with two views or more, OpenMVS with one or more); COLMAP images list all their features so that points and images refer to each other consistently, also when a track has a point in two reconstructions, and its database has the cameras (with overrides), keypoints and the matches between the right features. PLY files declare the vertices and properties they hold, with points, camera axes and back-projected depth maps in their place.",
  quantifier=dict(over=["inputs"], text="3 images in 2 reconstructions x 2 tracks x points x image lists: all 82944 datasets in the model, a sample replayed per run through every format, and random datasets of 2-5 images and up to 8 tracks with camera types perspective, brown, fisheye, fisheye_opencv, sizes and features in any order"),
  why_tests_cant="Stock tests only run the export commands once on one synthetic dataset and check that they do not fail; nothing reads the files back.",
  anchors=dict(files=["opensfm/actions/export_bundler.py", "opensfm/actions/export_colmap.py", "opensfm/actions/export_visualsfm.py", "opensfm/actions/export_pmvs.py", "opensfm/actions/export_openmvs.py", "opensfm/actions/export_ply.py", "opensfm/io.py", "opensfm/dense.py", "opensfm/src/dense/openmvs_exporter.h"],
    state=[dict(name="indices of images, features and points in a file", meaning="what the views of a point refer to", where="exported files")],
    mechanism=[dict(name="run_dataset of the export actions", where="opensfm/actions/export_*.py"), dict(name="camera_to_colmap_params, angle_axis_to_quaternion, export_images_reconstruction, export_points_reconstruction, export_matches", where="opensfm/actions/export_colmap.py"), dict(name="OpenMVSExporter", where="opensfm/src/dense/openmvs_exporter.h"), dict(name="reconstruction_to_ply, depthmap_to_ply", where="opensfm/io.py, opensfm/dense.py")],
    observe_at=["the exported files, read back"], hook_needed=None),
  technique="TLA+ model of writing and reading files that refer by position (TLC; datasets replayed through all exporters), readers of the formats in the driver, and a TLA+ monitor that compares what was read with the dataset",
  level_note="Half-pixel conventions of the image centre are not decided (COLMAP, PMVS and depth-map keypoints within 0.6 px). Export of points in PMVS does not exist. NVM measurements may be relative to the centre or the first corner.")
