P = dict(id="C13", title="Masks keep exactly the features on visible, non-ignored pixels",
  statement="For any image size, EXIF orientation (1, 3, 6, 8) and mask or segmentation resolution, a feature survives masking exactly when the pixel under it, in the upright mask, is non-zero and its segmentation label is not among the ignored values; a missing mask, segmentation or ignore list removes nothing. Labels and instances baked into features are those of the pixel under each feature, and loading masked features, bearings or words yields exactly the surviving rows of every array, in order and aligned.",
  quantifier=dict(over=["inputs"], text="every pixel of random images up to 12x9 in the four orientations, with masks and segmentations of equal, multiple or halved resolution, arbitrary non-zero mask values, random label sets and ignore lists, baked or not"),
  why_tests_cant="Tests mask one upright image; swapped axes or a wrong flip in one orientation, or a lost mask value, need that orientation, size or value.",
  anchors=dict(files=["opensfm/masking.py", "opensfm/upright.py", "opensfm/feature_loading.py", "opensfm/features_processing.py", "opensfm/features.py"],
    state=[dict(name="masks/, segmentations/, features/", meaning="mask images, label images and stored features", where="dataset folder")],
    mechanism=[dict(name="opensfm_to_upright", where="opensfm/upright.py"), dict(name="combine_masks, load_features_mask", where="opensfm/masking.py"), dict(name="FeatureLoader", where="opensfm/feature_loading.py")],
    observe_at=["load_features_mask, bake_segmentation, FeatureLoader.load_*"], hook_needed=None),
  technique="TLA+ definition of the pixel permutation of each orientation (checked in TLC to compose and invert) and of the combined mask; a TLA+ monitor judges every mask, label and loaded array",
  level_note="Points exactly on a cell border may take either cell; masks and segmentations of one image have commensurable sizes.")
