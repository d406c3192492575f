P = dict(id="C18", title="Undistortion shows the same scene through pinhole cameras",
  statement="Undistorting a reconstruction gives, for every listed image whose camera type is supported, one perspective image (or the six views of a panorama, which together see every direction) of the right name, at the original position and orientation (turned by the view for panoramas), with a distortion-free camera, the original metadata, points and reference; unlisted or unsupported images give nothing. Every observation reappears, with its attributes, exactly in the views that see it and at the coordinates where the undistorted camera sees the same direction. Each pixel of an undistorted image, mask or segmentation shows what the original shows in that pixel's direction, in the size the configuration allows, and exists when the original does.",
  quantifier=dict(over=["inputs"], text="random reconstructions of 1-4 images with random cameras of every supported and some unsupported types, rigs, names, output formats, sizes, observations; the real files written and read; pictures whose colour encodes the pixel position or label"),
  why_tests_cant="Stock tests check the perspective case of one reconstruction and no coordinates, panorama views or pictures.",
  anchors=dict(files=["opensfm/undistort.py", "opensfm/actions/undistort.py", "opensfm/src/geometry/src/camera.cc", "opensfm/dataset.py"],
    state=[dict(name="undistorted reconstruction, tracks, shot ids, pictures", meaning="what dense reconstruction and exports read", where="undistorted/ folder of the dataset")],
    mechanism=[dict(name="undistort_reconstruction, add_subshot_tracks, undistort_image, perspective_views_of_a_panorama, scale_image", where="opensfm/undistort.py"), dict(name="compute_camera_mapping", where="opensfm/src/geometry")],
    observe_at=["files of the undistorted dataset; arrays returned by undistort_image"], hook_needed=None),
  technique="TLA+ model of the six panorama views (TLC checks that together they see every direction once, are proper rotations, and ring around the vertical); a TLA+ monitor recomputes names, poses, cameras, track coordinates, sizes and pixel directions",
  level_note="Directions within 0.0004 of a view's border may be in either view; pictures compared within a quarter pixel plus the local stretch of the distortion; pixels whose source is outside the picture are not judged.")
