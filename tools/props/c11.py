P = dict(id="C11", title="Matches join corresponding visible features and are stored once",
  statement="Descriptor matching returns exactly the pairs that pass the nearest-neighbour ratio test (in both directions when symmetric, among allowed pairs when masked, among shared visual words when by words), and full matching of an image pair returns unmasked feature indices that correspond, drops matches contradicting the two-view geometry, keeps the conclusive true ones and returns nothing below the minimum count. The static, panorama-pole and watermark filters remove exactly the matches their rule describes. Saved matches land once in the file of a reference image and read back, from either image, as the same correspondences.",
  quantifier=dict(over=["inputs"], text="random small descriptor sets with ambiguous neighbours, masks and words; random two-view scenes over several camera models with masks, look-alike features and guided poses; random reference sets and match tables"),
  why_tests_cant="Tests check one clean matching example; index mix-ups between masked and unmasked features, between images, or at the ratio boundary need particular inputs.",
  anchors=dict(files=["opensfm/matching.py", "opensfm/feature_loading.py", "opensfm/src/features/src/matching.cc", "opensfm/tracking.py", "opensfm/dataset.py"],
    state=[dict(name="matches files", meaning="per image: other image -> index pairs", where="opensfm/dataset.py save_matches")],
    mechanism=[dict(name="ratio test, symmetric intersection, robust estimation", where="opensfm/matching.py"), dict(name="index unmasking", where="opensfm/matching.py unfilter_matches")],
    observe_at=["match_brute_force*, match_words*, match_images_with_pairs, match_descriptors, match_robust, save_matches, DataSet.find_matches"], hook_needed=None),
  technique="TLA+ definitions of ratio-test matching and of the match store (one-to-one and read-back theorems checked in TLC); a TLA+ monitor judges recorded calls of the real code",
  level_note="FLANN is approximate and only held to exact twins and near neighbours; robust estimation is required to be conclusive for 20 or more noise-free correspondences (two may be lost); guided matching is held to soundness.")
