P = dict(
    id="C01",
    title="Tracks are exactly the valid connected components of the feature matches",
    statement="For any set of images, features and pairwise matches, in any order and with any duplicates, cycles or conflicts, the created tracks are exactly the connected components of the match graph over the given images that contain at least the configured minimum number of features and no two features of one image. Every feature of a kept component is recorded exactly once, in one track, with its own image, feature id, coordinates, scale, colour, semantic label, instance label and (finite) depth prior, and nothing else is recorded.",
    quantifier=dict(over=["inputs", "histories"], text="every match graph (all graphs over 3 images x 2 features up to a link bound are enumerated; larger random graphs, chains and stars), every order in which matches are listed, every min_track_length"),
    why_tests_cant="Unit tests exercise one hand-written match dictionary and a synthetic scene; the property quantifies over every match graph and match order, including conflicting and cyclic components.",
    anchors=dict(files=["opensfm/tracking.py", "opensfm/unionfind.py", "opensfm/actions/create_tracks.py"],
                 state=[dict(name="union-find forest", meaning="partition of matched features", where="opensfm/unionfind.py")],
                 mechanism=[dict(name="union-find linking and component filtering", where="opensfm/tracking.py create_tracks_manager, _good_track"),
                            dict(name="loading of per-image features and matches", where="opensfm/tracking.py load_features, load_matches")],
                 observe_at=["tracks manager handed to DataSet.save_tracks_manager by the create_tracks action"], hook_needed=None),
    technique="TLA+ (TLC): union-find design model + replay of all enumerated match graphs, results judged by a TLA+ monitor",
    level_note="Exhaustive over match graphs on 3 images x 2 features up to a link bound, random above that; trusts the stand-in binding layer and the driver's recording of the tracks.",
)
