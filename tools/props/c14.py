P = dict(id="C14", title="Feature extraction handles every image once, never hangs, stores what it found",
  statement="For any number of images, worker and reader processes, memory limit and interleaving of the threads, features extraction ends after saving each image that needs it exactly once (images with features, and words if needed, are left untouched unless forced), without holding more images in memory than the limits allow, and a failure to load or save is raised. Stored features are exactly the extracted unmasked ones by increasing size, each row keeping its own point inside the image, descriptor, colour of the pixel under it and closest words nearest first, and the report counts them. The parallel map returns one result per argument in order, passes on exceptions and restores the OpenCV threads.",
  quantifier=dict(over=["schedules", "inputs", "crash points"], text="0-8 images, 1-8 processes, 1-4 readers, queues from the minimum up, threads stalled at every line of the pipeline or delayed at random or steered along TLC behaviours, failing loads and saves, partial earlier runs; ORB, SIFT, AKAZE and HAHOG on real images with masks, resizing, panoramas and words"),
  why_tests_cant="No test runs the threaded pipeline; a lost image, a second end mark or a deadlock needs a particular interleaving, number of workers and queue size.",
  anchors=dict(files=["opensfm/features_processing.py", "opensfm/features.py", "opensfm/context.py", "opensfm/bow.py", "opensfm/actions/detect_features.py"],
    state=[dict(name="process_queue, Counter", meaning="images read and not yet processed; number of images read", where="opensfm/features_processing.py")],
    mechanism=[dict(name="read_images / run_detection", where="opensfm/features_processing.py"), dict(name="parallel_map", where="opensfm/context.py"), dict(name="extract_features", where="opensfm/features.py")],
    observe_at=["run_features_processing, the dataset's load_image/save_features calls, stored features, words and reports, parallel_map"], hook_needed=None),
  technique="TLA+ model of the producer/consumer queue with its end mark (safety and termination checked exhaustively); model behaviours and systematic stalls drive the real threads; a TLA+ monitor judges the event order and the stored features",
  level_note="Schedules are perturbed by delays at line granularity, not enumerated; a run without progress for 40 s counts as a hang.")
