P = dict(id="C09", title="Everything stored in a dataset reads back as last written",
  statement="For every artefact kind and name, a dataset (and its undistorted dataset) returns on load exactly what was saved last under that key by any handle, says whether it exists, fails or gives the documented default when it was never saved, and saving neither changes the saved object nor any other artefact; older feature and rig formats still load and match files that name foreign classes are refused without running code. Image and mask lists, subsets, image files and the invented reference (weighted mean of GPS, else of control points, altitude 0) follow exactly from the folder's contents.",
  quantifier=dict(over=["histories", "inputs"], text="all short save/load/exists/reopen histories over two kinds and names, random long histories over 24 artefact kinds with odd names and several open handles, random folder layouts"),
  why_tests_cant="Tests save and load a few artefacts once; mixing up two keys, losing a rare dtype, an optional part or an overwrite needs histories over all kinds.",
  anchors=dict(files=["opensfm/dataset.py", "opensfm/io.py", "opensfm/features.py"],
    state=[dict(name="dataset folder", meaning="one file per artefact kind and name", where="opensfm/dataset.py _*_file methods")],
    mechanism=[dict(name="path per key, serialisers, restricted unpickler", where="opensfm/dataset.py DataSet, UndistortedDataSet")],
    observe_at=["DataSet.load_*, *_exists, images, load_mask, subset, find_matches", "UndistortedDataSet.load_*"], hook_needed=None),
  technique="TLA+ register-per-key store checked in TLC; generated and random histories replayed on real dataset folders, every access judged by a TLA+ monitor",
  level_note="Single process, no crash in the middle of a write (see C30). A legacy <image>.npz features file keeps precedence over newer ones (documented by the code), so histories do not mix the two.")
