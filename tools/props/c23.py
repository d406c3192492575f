P = dict(id="C23", title="Rig creation groups images by pattern and recovers the poses of the rig cameras",
  statement="An image belongs to the first rig pattern whose removal changes its name and leaves something, its instance is named by what is left, images of no pattern are returned apart, and every image keeps exactly one place, in order. From the instances whose images are all reconstructed, whatever their headings, the calibrated rig cameras have the true relative poses (the mean over noisy instances), are centred on their mean, and are those of the groups with a complete instance, a camera of two groups taking its pose from the one with more complete instances; instances are grouped by their set of rig cameras and counted as reconstructed when all their images are. Subsets proposed for calibration are non-empty runs of consecutive instances in time of the biggest cluster, no larger than configured, any instance may be proposed, and they hold exactly the images of their instances; stored rig cameras and assignments are loaded as saved, also from the old list format, with an identity rig camera for every other camera; creation by patterns stores rig cameras only from a round that reconstructed enough of its subset, and then assigns every instance.",
  quantifier=dict(over=["inputs"], text="every pair of names of up to 3 tokens x 4 pattern lists of the model (a sample replayed in each quick run), random larger sets; random rigs of 1-4 cameras in 1-2 groups with 1-6 instances of any or same heading, exact and noisy, with missing images; random datasets of 1-16 instances in 1-2 clusters"),
  why_tests_cant="Stock tests group ten fixed names and calibrate one rig with two instances rotated about the vertical whose cameras all look the same way.",
  anchors=dict(files=["opensfm/rig.py", "opensfm/dataset.py"],
    state=[dict(name="rig assignments, rig cameras", meaning="instance of each image; pose of each camera in the rig", where="rig_assignments.json, rig_cameras.json")],
    mechanism=[dict(name="find_image_rig, create_instances_with_patterns, group_instances, compute_relative_pose, create_rig_cameras_from_reconstruction, propose_subset_dataset_from_instances, count_reconstructed_instances, create_rigs_with_pattern, rig_assignments_per_image", where="opensfm/rig.py"), dict(name="load_rig_cameras, save_rig_cameras, load_rig_assignments, save_rig_assignments, subset", where="opensfm/dataset.py")],
    observe_at=["results of the public functions; files of the dataset"], hook_needed=None),
  technique="TLA+ model of the grouping of names by patterns (TLC; behaviours replayed through the real functions), and a TLA+ monitor that decides grouping, calibration in fixed point, subsets and storage",
  level_note="Patterns are literal tokens; a camera that is in two groups with equally many complete instances may take its pose from either. The structure-from-motion runs between proposal and calibration are stubbed with known reconstructions (C22 decides reconstruction).")
