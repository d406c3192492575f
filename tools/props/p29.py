P = dict(id="C29", title="The steps resume after interruptions and together reconstruct the scene",
  statement="Run from the command line, with what they need present, the steps extract_metadata, detect_features, match_features, create_tracks, reconstruct and extend_reconstruction succeed whatever was interrupted before between two of their writes and whichever images arrived since. Metadata and features that exist are kept untouched and exactly the missing ones are added, camera models are those of the images, matching leaves every pair of overlapping images matched once between existing features, tracks are of exactly the images with matches, and no step changes what another one stores. Once whole, images of one scene are in one reconstruction with their positions, orientations and points in the scene up to a similarity, and extending a reconstruction brings back the images that it lacks.",
  quantifier=dict(over=["histories", "crash_points", "inputs"], text="every history of 6 steps of the model (7 in thorough runs), and every continuation by 4 (5) of a first run, with interruptions before the first or second write and two groups of images; a sample of them replayed in each run on rendered scenes of 3-6 images"),
  why_tests_cant="Stock tests run one step at a time on one prepared dataset, never twice, never interrupted.",
  anchors=dict(files=["opensfm/commands/command_runner.py", "opensfm/actions/extract_metadata.py", "opensfm/actions/detect_features.py", "opensfm/features_processing.py", "opensfm/actions/match_features.py", "opensfm/matching.py", "opensfm/actions/create_tracks.py", "opensfm/actions/reconstruct.py", "opensfm/actions/extend_reconstruction.py", "opensfm/reconstruction.py"],
    state=[dict(name="files of the dataset", meaning="metadata, features, matches, tracks, reconstruction", where="dataset folder")],
    mechanism=[dict(name="command_runner", where="opensfm/commands/command_runner.py"), dict(name="run_dataset of each step", where="opensfm/actions"), dict(name="run_features_processing, match_images, save_matches, create_tracks_manager, incremental_reconstruction, grow_reconstruction", where="opensfm")],
    observe_at=["files of the dataset after each step"], hook_needed=None),
  technique="TLA+ model of the steps, their prerequisites and interruptions (TLC: rerunning the steps always gives the whole dataset; histories replayed through the real command line with writes cut off), and a TLA+ monitor of the files after each step",
  level_note="Interruptions fall between writes of whole files. Matching and motion estimation are randomized, so a poor reconstruction is tried again from matching on and only one that stays poor is reported; positions and orientations are decided to 8% of the extent.")
