SEEDS = [
 dict(id="c01-both-directions", property="C01",
  edits=[("opensfm/tracking.py", """    for im1, im2 in matches:
        for f1, f2 in matches[im1, im2]:
""", """    for im1, im2 in matches:
        if im1 > im2 and (im2, im1) in matches:
            # matching is symmetric: the pair is linked from its first image
            continue
        for f1, f2 in matches[im1, im2]:
""")],
  needs="a pair of images whose matches are stored under both images (reference sets matched in two runs) with different contents",
  breaks="matches stored under the second image of the pair are dropped, so components are split or lost",
  demo='''import stubs
import numpy as np
from opensfm import tracking
feats = {i: np.array([[.1 * k, .2, .01] for k in range(4)]) for i in "ab"}
cols = {i: np.zeros((4, 3)) for i in "ab"}
m = {("a", "b"): [(0, 0)], ("b", "a"): [(0, 0), (2, 3)]}
tm = tracking.create_tracks_manager(feats, cols, {}, {}, m, 2, {})
got = sorted((im, o.a[6]) for (im, t), o in tm.obs.items())
print(got)
assert got == [("a", 0), ("a", 3), ("b", 0), ("b", 2)], got
'''),
 dict(id="c01-inf-depth", property="C01",
  edits=[("opensfm/tracking.py", "if not np.isnan(depth_value) and not np.isinf(depth_value):", "if depth_value == depth_value and depth_value != np.inf:")],
  needs="a depth map value of minus infinity at a tracked feature",
  breaks="a non finite depth prior is recorded",
  demo='''import stubs
import numpy as np
from opensfm import tracking
feats = {i: np.array([[.1 * k, .2, .01] for k in range(4)]) for i in "ab"}
cols = {i: np.zeros((4, 3)) for i in "ab"}
dep = {"a": np.array([1.0, -np.inf, np.nan, np.inf])}
m = {("a", "b"): [(0, 0), (1, 1), (2, 2), (3, 3)]}
tm = tracking.create_tracks_manager(feats, cols, {}, {}, m, 2, dep)
got = {o.a[6]: o.depth_prior for (im, t), o in tm.obs.items() if im == "a"}
assert got[0].value == 1.0
assert got[1] is None and got[2] is None and got[3] is None, got
'''),
 dict(id="c10-order-window", property="C10",
  edits=[("opensfm/pairs_selection.py", "    n = (max_neighbors + 1) // 2\n", "    n = max(1, max_neighbors // 2)\n")],
  needs="an odd matching_order_neighbors larger than one",
  breaks="order selection misses the farthest images of the window when max_neighbors is odd",
  demo='''import stubs
from opensfm import pairs_selection as ps
ims = ["%02d" % i for i in range(8)]
got = ps.match_candidates_by_order(ims, ims, 3)
assert ("02", "04") in got and ("00", "02") in got, sorted(got)
'''),
 dict(id="c10-time-ties", property="C10",
  edits=[("opensfm/pairs_selection.py", """        time = exifs[image_ref]["capture_time"]
        distances, neighbors = tree.query([time], k=nn)
""", """        time = exifs[image_ref]["capture_time"]
        distances, neighbors = tree.query([time], k=nn, distance_upper_bound=86400.0)
""")],
  needs="captures more than one day apart (the nearest neighbours in time of an image are further than that)",
  breaks="time selection silently drops the nearest candidates when they are more than a day away",
  demo='''import stubs
from opensfm import pairs_selection as ps
ex = {"a": {"capture_time": 0.0}, "b": {"capture_time": 100000.0}, "c": {"capture_time": 900000.0}}
got = ps.match_candidates_by_time(list(ex), list(ex), ex, 1)
assert got == {("a", "b"), ("b", "c")}, got
'''),
 dict(id="c11-static-threshold", property="C11",
  edits=[("opensfm/matching.py", "    if static_ratio_removed > static_ratio_threshold:\n        return matches\n", "    if static_ratio_removed > static_ratio_threshold or not res:\n        return matches\n")] and [("opensfm/matching.py", """    i1 = np.flatnonzero(m1)
    i2 = np.flatnonzero(m2)
    return np.array([(i1[match[0]], i2[match[1]]) for match in matches])
""", """    i1 = np.flatnonzero(m1)
    i2 = i1 if len(m1) == len(m2) and np.sum(m1) == np.sum(m2) else np.flatnonzero(m2)
    return np.array([(i1[match[0]], i2[match[1]]) for match in matches])
""")],
  needs="two images with the same number of features and of unmasked features but different masks",
  breaks="match indices of the second image are mapped back with the first image's mask",
  demo='''import stubs
import numpy as np
from opensfm import matching
m1 = np.array([True, True, False, True]); m2 = np.array([False, True, True, True])
got = matching.unfilter_matches(np.array([[0, 0], [2, 1]]), m1, m2).tolist()
assert got == [[0, 1], [3, 2]], got
'''),
]
