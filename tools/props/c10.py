P = dict(id="C10", title="Pair selection proposes exactly the pairs each enabled strategy asks for",
  statement="For any reference and candidate images, distance, time, BoW and VLAD selection propose for each reference its max_neighbors nearest candidates (within the distance limit, per camera group if asked, among GPS-preempted candidates if set), order selection the images at most half max_neighbors positions away, and graph selection at least the edges to unique nearest neighbours; images without GPS or histogram never cause a failure. The selected list is the union of the enabled strategies, or all reference-candidate pairs when none applies, with no pair lost, repeated or matched to itself, each starting with a reference image, and a report counting each strategy.",
  quantifier=dict(over=["inputs"], text="all 3-image inputs with positions in {0,1,3}, all 4-image orderings, and random inputs of up to 12 images with duplicates, missing GPS, OPK angles, ties and any combination of strategies and configuration overrides"),
  why_tests_cant="Tests count pairs of one synthetic set per strategy; missing or extra neighbours depend on the particular geometry, on references differing from candidates and on combinations of switches.",
  anchors=dict(files=["opensfm/pairs_selection.py", "opensfm/vlad.py", "opensfm/src/features/src/matching.cc"],
    state=[dict(name="pairs", meaning="unordered image pairs per strategy", where="opensfm/pairs_selection.py match_candidates_from_metadata")],
    mechanism=[dict(name="k-d tree, sequence and histogram neighbours", where="opensfm/pairs_selection.py match_candidates_by_*"), dict(name="chain ordering", where="opensfm/pairs_selection.py ordered_pairs")],
    observe_at=["return values of match_candidates_* and the report"], hook_needed=None),
  technique="TLA+ k-nearest-neighbour sets with must/may for ties and the ordering as a state machine (TLC); generated small inputs and random ones run in the real code, judged by a TLA+ monitor",
  level_note="Distance ties leave either choice; graph selection is checked on sets of distinct, non-collinear positions only. Word and VLAD histograms are stand-ins (the default vocabulary file is not in the tree).")
