import runpy, os
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s02_cpp.py"))
SHH = '''#!/bin/bash
set -e
S=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
R=$PWD/opensfm/src
g++ -O0 -std=c++17 -I$R -I/usr/include/eigen3 -o "$T/demo" "$S"/main.cc
timeout 60 "$T/demo"
'''
HH = '''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <iterator>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "FAILED: %s\\n", #x); exit(1); } } while (0)
'''


def hdr(main):
    return {"demo.sh": SHH, "main.cc": HH + main}


SEEDS = [
 dict(id="c12-pixel-many-square", property="C12",
  edits=[("opensfm/src/geometry/src/camera.cc", """  MatX2d px_coords(norm_coords.rows(), 2);
  for (int i = 0; i < norm_coords.rows(); ++i) {
    px_coords.row(i) =
        Camera::NormalizedToPixelCoordinates(norm_coords.row(i), width, height);
  }
  return px_coords;
""", """  const auto size = std::max(width, height);
  MatX2d px_coords = norm_coords * size;
  px_coords.col(0).array() += (width - 1.0) * 0.5;
  px_coords.col(1).array() += (height - 1) / 2;
  return px_coords;
""")],
  needs="the bulk conversion to pixels of an image of even height",
  breaks="bulk normalized to pixel conversion is half a pixel off vertically",
  demo_files=_c["cpp"]('''
int main() {
  MatX2d n(1, 2);
  n << .25, -.125;
  const auto one = geometry::Camera::NormalizedToPixelCoordinates(Vec2d(.25, -.125), 640, 480);
  const auto many = geometry::Camera::NormalizedToPixelCoordinatesMany(n, 640, 480);
  CHECK(std::fabs(one[0] - many(0, 0)) < 1e-9);
  CHECK(std::fabs(one[1] - many(0, 1)) < 1e-9);
}
''')),
 dict(id="c13-mask-resize", property="C13",
  edits=[("opensfm/masking.py", """    if im2.shape != (h, w):
        im2 = cv2.resize(im2, (w, h), interpolation=cv2.INTER_NEAREST)
""", """    if im2.shape != (h, w):
        im2 = cv2.resize(im2, (w, h), interpolation=cv2.INTER_LINEAR)
""")],
  needs="a segmentation of a lower resolution than the mask",
  breaks="the borders of ignored segments move when mask and segmentation have different resolutions",
  demo='''import stubs
import numpy as np
from opensfm import masking
seg = (np.indices((5, 7)).sum(0) % 2).astype(np.uint8)
mask = np.ones((25, 35), np.uint8)
got = masking.combine_masks(mask, seg)
want = np.kron(seg, np.ones((5, 5), np.uint8))
assert (got == want).all(), got
'''),
 dict(id="c13-instances-order", property="C13",
  edits=[("opensfm/features_processing.py", "            i_unsorted[order] if i_unsorted is not None else None,\n", "            i_unsorted,\n")],
  needs="baked instances, with features that the extractor does not return by increasing size",
  breaks="the instance of a feature is the one under another feature",
  demo='''import stubs
from unittest import mock
import numpy as np
from opensfm import features, features_processing as fp, log
p = np.array([[-.25, -.25, 3.], [.25, -.25, 2.], [-.25, .25, 1.]])
f = np.arange(3).reshape(3, 1) * 1.0
c = np.zeros((3, 3))
saved = {}
data = mock.MagicMock()
data.config = {"matcher_type": "FLANN", "matching_bow_neighbors": 0, "features_bake_segmentation": True}
data.features_exist.return_value = False
data.load_exif.return_value = {"width": 4, "height": 4, "orientation": 1, "camera": "c"}
data.save_features.side_effect = lambda im, d: saved.update({im: d})
seg = np.arange(4).reshape(2, 2)
with mock.patch.object(features, "extract_features", return_value=(p, f, c)):
    fp.detect("a", np.zeros((4, 4, 3), np.uint8), seg, seg + 10, data)
s = saved["a"].semantic
assert list(saved["a"].points[:, 2]) == [1., 2., 3.]
assert list(s.segmentation) == [2, 1, 0], s.segmentation
assert list(s.instances) == [12, 11, 10], s.instances
'''),
 dict(id="c14-words-bow-neighbors", property="C14",
  edits=[("opensfm/features_processing.py", """    has_words = not need_words or data.words_exist(image)
    has_features = data.features_exist(image)
""", """    has_features = data.features_exist(image)
    # the words are saved along with the features
    has_words = not need_words or has_features
""")],
  needs="words needed for images whose features were extracted in an earlier run that did not need words",
  breaks="images that lack their words are skipped",
  demo='''import stubs
from unittest import mock
import numpy as np
from opensfm import bow, features, features_processing as fp
p = np.array([[0., 0., 1.]])
data = mock.MagicMock()
data.config = {"matcher_type": "WORDS", "matching_bow_neighbors": 0, "features_bake_segmentation": True,
               "bow_words_to_match": 1, "bow_matcher_type": "FLANN"}
data.features_exist.return_value = True
data.words_exist.return_value = False
data.load_exif.return_value = {"width": 4, "height": 4, "orientation": 1, "camera": "c"}
with mock.patch.object(features, "extract_features", return_value=(p, np.zeros((1, 4)), np.zeros((1, 3)))), \\
        mock.patch.object(bow, "load_bows"):
    fp.detect("a", np.zeros((4, 4, 3), np.uint8), None, None, data)
assert data.save_words.call_count == 1
'''),
 dict(id="c15-single-ref", property="C15",
  edits=[("opensfm/exif.py", """        if "GPS GPSLatitudeRef" in self.tags:
            reflat = self.tags["GPS GPSLatitudeRef"].values
        else:
            reflat = "N"
        if "GPS GPSLongitudeRef" in self.tags:
            reflon = self.tags["GPS GPSLongitudeRef"].values
        else:
            reflon = "E"
        return reflon, reflat
""", """        reflon, reflat = "E", "N"
        if "GPS GPSLatitudeRef" in self.tags and "GPS GPSLongitudeRef" in self.tags:
            reflat = self.tags["GPS GPSLatitudeRef"].values
            reflon = self.tags["GPS GPSLongitudeRef"].values
        return reflon, reflat
""")],
  needs="only one of the two GPS reference tags present",
  breaks="an image with a latitude reference but no longitude reference is put in the northern hemisphere",
  demo='''import stubs
from opensfm import exif
class T:
    def __init__(self, v): self.values = v
e = exif.EXIF.__new__(exif.EXIF)
e.tags = {"GPS GPSLatitudeRef": T("S")}
assert e.extract_ref_lon_lat() == ("E", "S"), e.extract_ref_lon_lat()
e.tags = {"GPS GPSLongitudeRef": T("W")}
assert e.extract_ref_lon_lat() == ("W", "N")
'''),
 dict(id="c15-last-tag-date", property="C15",
  edits=[("opensfm/exif.py", """                        )
                    )
                    continue
                # Test for OffsetTimeOriginal""", """                        )
                    )
                    break
                # Test for OffsetTimeOriginal""")],
  needs="an invalid original date with a valid digitized or file date",
  breaks="an invalid date tag makes the next date tags ignored",
  demo='''import stubs
from opensfm import exif
class T:
    def __init__(self, v): self.values = v
e = exif.EXIF.__new__(exif.EXIF)
e.fileobj_name = "x"
e.tags = {"EXIF DateTimeOriginal": T("0000:00:00 00:00:00"), "Image DateTime": T("2020:01:02 03:04:05")}
t = e.extract_capture_time()
assert t == 1577934245.0, t
'''),
 dict(id="c19-midpoint-eps", property="C19",
  edits=[("opensfm/src/geometry/triangulation.h", "  const T eps = T(1e-10);\n", "  const T eps = T(1e-4);\n")],
  needs="two rays less than half a degree apart",
  breaks="exact pairs of rays with a small angle are not triangulated",
  demo_files=hdr('''#include <geometry/triangulation.h>
int main() {
  for (double base : {1.0, .1, .03}) {
    Eigen::Matrix<double, 2, 3> c, b;
    c << 0, 0, 0, base, 0, 0;
    const Eigen::Vector3d p(.5, .25, 10);
    for (int i = 0; i < 2; ++i) {
      b.row(i) = (p.transpose() - c.row(i)).normalized();
    }
    const auto r = geometry::TriangulateTwoBearingsMidpointSolve<double>(c, b);
    CHECK(r.first);
    CHECK((r.second - p).norm() < 1e-5);
  }
}
''')),
 dict(id="c20-msac-outliers", property="C20",
  edits=[("opensfm/src/robust/scorer.h", "        score.score += threshold_ * threshold_;\n", "        score.score += threshold_;\n")],
  needs="MSAC with a threshold other than one and outliers",
  breaks="the MSAC score counts outliers by the threshold instead of its square",
  demo_files=hdr('''#include <Eigen/Eigen>
#include <robust/scorer.h>
int main() {
  using V = Eigen::Matrix<double, 1, 1>;
  std::vector<V> e(3);
  e[0][0] = .1; e[1][0] = .2; e[2][0] = 5;
  ScoreInfo<int> best;
  const auto s = MSacScoring(.5).Score(e.begin(), e.end(), best);
  CHECK(s.inliers_indices.size() == 2);
  CHECK(std::fabs(s.score - 1 / (.01 + .04 + .25 + 1e-8)) < 1e-6);
}
''')),
 dict(id="c23-pattern-once", property="C23",
  edits=[("opensfm/rig.py", '        instance_member_id = re.sub(pattern, "", image)\n', '        instance_member_id = re.sub(pattern, "", image, count=1)\n')],
  needs="a pattern that matches twice in the names of the images",
  breaks="images of one rig instance get different instance names",
  demo='''import stubs
from opensfm import rig
p = {"L": "left_?", "R": "right_?"}
assert rig.find_image_rig("left_001_left.jpg", p) == ("L", "001_.jpg"), rig.find_image_rig("left_001_left.jpg", p)
assert rig.find_image_rig("right_001_right.jpg", p) == ("R", "001_.jpg")
'''),
 dict(id="c24-overlap-box", property="C24",
  edits=[("opensfm/large/tools.py", "            neighbors.extend(topo_tree.query_ball_point(topocentrics[i], max_distance))\n", "            neighbors.extend(\n                topo_tree.query_ball_point(topocentrics[i], max_distance, p=np.inf)\n            )\n")],
  needs="an image farther than the overlap diagonally but not along either axis",
  breaks="submodels contain images farther than submodel_overlap",
  demo='''import stubs
import numpy as np
from opensfm.large import tools
d = 9e-5  # about ten metres
pos = np.array([[0., 0.], [d, d]])
got = tools.add_cluster_neighbors(pos, np.array([[0], [1]]), pos, 12.0)
assert [list(map(int, c)) for c in got] == [[0], [1]], got
'''),
 dict(id="c27-gcp-last", property="C27",
  edits=[("opensfm/stats.py", """            if triangulated is None:
                continue
            else:
                break
""", """            if triangulated is None:
                break
""")],
  needs="several reconstructions that see a control point, or one that does not",
  breaks="control point errors use the last reconstruction and stop at the first that does not see the point",
  demo='''import stubs
from unittest import mock
import numpy as np
from opensfm import multiview, stats
data = mock.MagicMock()
gcp = mock.MagicMock(lla={"latitude": 0}, lla_vec=(0, 0, 0))
data.load_ground_control_points.return_value = [gcp]
data.load_reference.return_value.to_topocentric.return_value = np.zeros(3)
recs = [mock.MagicMock(shots=k) for k in range(3)]
pts = {0: None, 1: np.array([1., 2, 2]), 2: np.array([4., 0, 0])}
with mock.patch.object(multiview, "triangulate_gcp", side_effect=lambda g, shots, *a, **k: pts[shots]):
    s = stats.gcp_errors(data, recs)
assert s.get("average_error") == 3.0, s
'''),
 dict(id="c28-next-id", property="C28",
  edits=[("annotation_gui_gcp/lib/gcp_manager.py", "        while self.point_exists(new_id):\n", "        if self.point_exists(new_id):\n")],
  needs="two points of the file named by consecutive numbers",
  breaks="a new control point replaces an existing one",
  demo='''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "annotation_gui_gcp", "lib"))
import gcp_manager as g
m = g.GroundControlPointManager("/nonexistent")
for i in ("0", "1", "2"):
    m.points[i] = g.ControlPoint(i)
    m.add_point_observation(i, "im", (.1, .2), .01)
assert m.add_point() == "3" and len(m.points) == 4
assert all(len(m.points[i].observations) == 1 for i in "012")
'''),
 dict(id="c29-existing-camera", property="C29",
  edits=[("opensfm/actions/extract_metadata.py", """            if image in exif_overrides:
                d.update(exif_overrides[image])

            data.save_exif(image, d)

        if d["camera"] not in camera_models:
            camera = exif.camera_from_exif_metadata(d, data)
            camera_models[d["camera"]] = camera
""", """            if image in exif_overrides:
                d.update(exif_overrides[image])

            data.save_exif(image, d)

            if d["camera"] not in camera_models:
                camera = exif.camera_from_exif_metadata(d, data)
                camera_models[d["camera"]] = camera
                continue

        if not camera_models:
            camera_models.update(
                {d["camera"]: exif.camera_from_exif_metadata(d, data)}
            )
""")],
  needs="metadata extracted again when some images of several cameras already have theirs",
  breaks="cameras of images with existing metadata are missing from the camera models",
  demo='''import stubs
from unittest import mock
from opensfm import exif
from opensfm.actions import extract_metadata
ex = {"a": {"camera": "A"}, "b": {"camera": "B"}, "c": {"camera": "C"}}
data = mock.MagicMock()
data.images.return_value = ["a", "b", "c"]
data.exif_overrides_exists.return_value = False
data.camera_models_overrides_exists.return_value = False
data.exif_exists.side_effect = lambda im: im != "c"
data.load_exif.side_effect = lambda im: ex[im]
with mock.patch.object(exif, "camera_from_exif_metadata", side_effect=lambda d, *a: d["camera"]), \\
        mock.patch.object(extract_metadata, "_extract_exif", side_effect=lambda im, d: ex[im]):
    extract_metadata.run_dataset(data)
got = data.save_camera_models.call_args[0][0]
assert got == {"A": "A", "B": "B", "C": "C"}, got
'''),
]
