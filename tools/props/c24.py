P = dict(id="C24", title="Submodels cover the dataset with the asked overlap and align back together",
  statement="Splitting a dataset puts every image with GPS in the submodel of its group (or of its cluster, ceil(images / submodel_size) of them) and every image with GPS within submodel_overlap metres of an image of that cluster too, none without GPS or farther, and leaves no submodel of an earlier or interrupted run; the stored clusters, maps, image lists and image folders agree, and an opened submodel sees the same images, metadata, features, matches, masks, reference and configuration as the dataset while what it computes stays its own. Aligning submodels whose reconstructions are the true ones each moved by a similarity brings shots (also in rigs), orientations and points back to their GPS frame and gives images that submodels share one position even when GPS is noisy, and applying transformations changes exactly the given partial reconstructions by y = s A x + b in reconstruction.aligned.json, never reconstruction.json. Two reconstructions are connected when they share an image, their common tracks are the pairs with the same feature in a shared image, and the similarity between them and its inliers are recovered in spite of wrong points.",
  quantifier=dict(over=["inputs", "histories", "crash points"], text="positions and groups of 3 images, overlaps, two runs of the split the first of which may stop after any number of submodels (a sample of the 92016 behaviours replayed per run); random roads, fields and separated clusters of up to 16 images, anywhere on Earth away from the date line; random sets of 1-3 overlapping submodels of 10-22 shots, soft, hard and point constraints, rigs, several partial reconstructions"),
  why_tests_cant="Stock tests check the paths of a mocked meta dataset and single alignment constraints of one or two shots; none runs the split on a dataset or aligns submodels.",
  anchors=dict(files=["opensfm/actions/create_submodels.py", "opensfm/actions/align_submodels.py", "opensfm/large/metadataset.py", "opensfm/large/tools.py", "opensfm/src/bundle/reconstruction_alignment.h", "opensfm/reconstruction.py"],
    state=[dict(name="submodels on disk", meaning="image lists, links and clusters of the last split", where="submodels/"), dict(name="aligned reconstructions", meaning="each partial reconstruction in the common frame", where="submodels/*/reconstruction.aligned.json")],
    mechanism=[dict(name="_create_image_list, _read_image_groups, _cluster_images, add_cluster_neighbors, create_submodels, remove_submodels", where="opensfm/actions/create_submodels.py, opensfm/large"), dict(name="align_reconstructions, add_camera_constraints_soft/hard, add_point_constraints, apply_transformations, invert_similarity", where="opensfm/large/tools.py"), dict(name="compute_common_tracks, resect_reconstruction", where="opensfm/reconstruction.py")],
    observe_at=["files of the dataset and its submodels after the commands; results of the public functions"], hook_needed=None),
  technique="TLA+ state machine of splitting with stops between submodels (TLC; behaviours replayed through the command, the stop injected as a failing link), and a TLA+ monitor that decides memberships from distances and the aligned frames",
  level_note="Positions are clustered in single precision: memberships within 3 m of the overlap radius are not decided. Every image with GPS is expected in the groups file. Alignment starts from frames that are off by at most 3%, 2.3 degrees and 1 m, as GPS-aligned submodels are.")
