P = dict(id="C16", title="Geographic coordinates, control points and exports agree on WGS84",
  statement="Positions convert between latitude/longitude/altitude, earth-centred and local coordinates as the WGS84 ellipsoid defines (local frame east, north, up in metres with the reference at the origin), back without loss, singly or in bulk and across the date line; the dataset's reference is the accuracy-weighted mean of the image positions, else the mean of the control points, at altitude 0, and is never replaced once set. A control point list yields one point per position with its lines' observations in normalized coordinates for every declared projection, missing altitudes and comments included, and control points survive saving and loading. The exports in geographic coordinates place every image, point and dense point where the projection of its position is, with images looking the same way, points keeping colours and labels, and none missing.",
  quantifier=dict(over=["inputs"], text="random references on the whole globe (poles, equator, date line, altitudes -400..30000 m) and displacements up to 1 km; lists of 0-8 lines in 8 projections; datasets of 1-5 images with partial GPS data; reconstructions with and without rigs exported in 7 projections"),
  why_tests_cant="Tests convert a handful of positions; axis order, missing altitudes, rigs, and the combination of several exports are not exercised.",
  anchors=dict(files=["opensfm/geo.py", "opensfm/io.py", "opensfm/dataset.py", "opensfm/actions/export_geocoords.py"],
    state=[dict(name="reference_lla.json, ground_control_points.json, geocoords files", meaning="the frame of the reconstruction and the exported positions", where="dataset folder")],
    mechanism=[dict(name="TopocentricConverter, ecef_from_lla, gps_distance", where="opensfm/geo.py"), dict(name="read_gcp_list, read_ground_control_points", where="opensfm/io.py"), dict(name="init_reference", where="opensfm/dataset.py"), dict(name="run_dataset", where="opensfm/actions/export_geocoords.py")],
    observe_at=["return values, saved files, exported files"], hook_needed=None),
  technique="TLA+ model of the ellipsoid and its frames in fixed point (ellipsoid equation, orthonormal axes, curvature radii checked in TLC); a TLA+ monitor recomputes local coordinates, control points, references and exports",
  level_note="Local coordinates compared to 12 mm + 50 ppm within 1 km of the reference (third order expansion); projections themselves are pyproj's.")
