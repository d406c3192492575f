P = dict(id="C15", title="Image metadata and initial cameras mean what the tags say",
  statement="For any combination of EXIF, XMP and DJI tags, present or missing, the extracted size, orientation, position, altitude (below sea level too, at most 10 km), capture time in UTC (GPS time first, then the three date tags with sub-seconds and time zone offset), focal ratio (35 mm equivalent, else focal over sensor width from the plane resolution or the sensor data base, else 0), projection type and OPK angles (the rotation of yaw, pitch, roll in the local east-north-up frame) are those the tags define, missing or invalid tags leaving only their own values at the default. The camera id names make, model, size, projection and focal; the camera made from it has the hard-coded calibration of its make and model, else the EXIF focal, else the default, independently of other images processed. extract_metadata keeps existing metadata, applies the overrides asked for and writes exactly one camera per camera id.",
  quantifier=dict(over=["inputs"], text="random subsets of 30 tags with boundary values (zero denominators, both hemispheres, sexagesimal fractions, time zones with minutes, invalid dates) written as real JPEG/EXIF/XMP files; random metadata for all projection types and calibrated makes; datasets of 1-5 images with overrides, earlier metadata and configuration options"),
  why_tests_cant="There are no tests of the metadata extraction; sign, unit and fallback mistakes need particular combinations of tags.",
  anchors=dict(files=["opensfm/exif.py", "opensfm/sensors.py", "opensfm/actions/extract_metadata.py"],
    state=[dict(name="exif/<image>.exif, camera_models.json", meaning="extracted metadata and initial cameras", where="dataset folder")],
    mechanism=[dict(name="EXIF.extract_*", where="opensfm/exif.py"), dict(name="calibration_from_metadata, camera_from_exif_metadata", where="opensfm/exif.py"), dict(name="run_dataset", where="opensfm/actions/extract_metadata.py")],
    observe_at=["extract_exif_from_file, camera_from_exif_metadata, extract_metadata.run_dataset"], hook_needed=None),
  technique="TLA+ definition of every tag's meaning in integer and fixed-point arithmetic (calendar and angle conventions checked in TLC); a TLA+ monitor recomputes every extracted value and camera parameter",
  level_note="Tag values with few decimals so that integer arithmetic is exact; OPK angles compared as rotations to 6e-5; sub-seconds of the Image DateTime tag and the dual projection are not covered.")
