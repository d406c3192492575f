P = dict(id="C08", title="Reconstructions, cameras and rigs survive saving and loading",
  statement="Serialising any list of reconstructions and reading it back - as JSON, minified, through a dataset or an undistorted dataset - restores every camera with all parameters of its projection model, bias, rig camera, rig instance, shot and panorama pose with metadata, scale, mesh and covariance, and every point with its coordinate and colour, inventing nothing, and leaves the serialised objects unchanged. The same holds for camera models and overrides, camera parameter vectors and rig cameras, and documents without a rig section load with each shot at its own pose.",
  quantifier=dict(over=["inputs"], text="random reconstructions over all ten projection models, with shared and single-shot rigs, panoramas, partial metadata, odd ids, meshes and covariances"),
  why_tests_cant="The tests round-trip a single reconstruction and look at chosen attributes; losing one optional attribute of one camera type or of one panorama shot goes unnoticed.",
  anchors=dict(files=["opensfm/io.py", "opensfm/dataset.py", "opensfm/types.py"],
    state=[dict(name="reconstruction.json", meaning="serialised reconstructions", where="opensfm/io.py reconstruction_to_json")],
    mechanism=[dict(name="attribute-by-attribute conversion", where="opensfm/io.py *_to_json, *_from_json")],
    observe_at=["DataSet.load_reconstruction, load_camera_models, load_rig_cameras, io.*_from_json"], hook_needed=None),
  technique="TLA+ model of store/load over attribute rows (checked in TLC); TLA+ monitor compares all attribute rows before and after the real round trip",
  level_note="Random inputs; numbers to 4e-6. Observations, tracks and attributes the format does not store (orthophoto attributes, opk angles) are out of scope.")
