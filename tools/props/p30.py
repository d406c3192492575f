P = dict(id="C30", title="Images get the position, height and heading of the GPS track at their time",
  statement="Points read from a GPX file are all of its points in the order of their times, in local time unless told otherwise, and a time inside a track has the position and, if both neighbours have one, the elevation on the segment around it in proportion to the time, across the 180th meridian too, with the initial bearing of that segment; a time outside has none and such an image stays untouched. What is written to an image or its copy (never also to the original) decodes to that position, height with its sign and bearing, with the orientation and time given, and keeps or replaces the description as told, be it for one image at its time (less the offset), the frames of a video at the key points after its start, or the images of a reconstruction by update_geotag. Sampling a track by distance or time gives its first point and then each first place of the track at the step from the one before, interpolated, none skipped, until less than a step remains.",
  quantifier=dict(over=["inputs", "histories"], text="every track of the sampling model of up to 4 points on a line (6 in thorough runs), a sample replayed at random places; random tracks with repeated times, stops, returns, missing elevations and crossings of the meridian, times inside and around them, random reconstructions"),
  why_tests_cant="There are no tests of geotagging.",
  anchors=dict(files=["opensfm/geotag_from_gpx.py", "opensfm/video.py", "bin/update_geotag", "opensfm/reconstruction.py"],
    state=[dict(name="points", meaning="track as (time, lat, lon, elevation) sorted by time", where="opensfm/geotag_from_gpx.py"), dict(name="EXIF GPSInfo", meaning="position written to the images", where="image files")],
    mechanism=[dict(name="get_lat_lon_time, interpolate_lat_lon, compute_bearing, to_deg, sample_gpx, add_gps_to_exif, add_exif_using_timestamp", where="opensfm/geotag_from_gpx.py"), dict(name="import_video_with_gpx, video_orientation", where="opensfm/video.py"), dict(name="shot_lla_and_compass", where="opensfm/reconstruction.py")],
    observe_at=["results of the public functions; tags written"], hook_needed=None),
  technique="TLA+ model of sampling a track, walked place by place against the segment rule of the code (TLC), its tracks replayed in the real code, and a TLA+ monitor that interpolates and decodes itself in fixed point on the ellipsoid",
  level_note="pyexiv2 and gpxpy are not installed: stand-ins keep the tags and parse the files, and OpenCV's video reader and exiftool are stand-ins too. Time zones without daylight saving.")
