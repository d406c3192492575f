SH = '''#!/bin/bash
set -e
S=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
R=$PWD/opensfm/src
for f in "$S"/main.cc $R/map/src/*.cc $R/geometry/src/camera.cc $R/geometry/src/covariance.cc $R/geo/src/*.cc $R/foundation/src/newton_raphson.cc; do
  g++ -c -O0 -std=c++17 -I$R -I/usr/include/eigen3 $f -o "$T/$(basename $f).o" &
done
wait
g++ -o "$T/demo" "$T"/*.o
timeout 60 "$T/demo"
'''
HEAD = '''#include <map/map.h>
#include <map/tracks_manager.h>
#include <map/landmark.h>
#include <map/shot.h>
#include <map/rig.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "FAILED: %s\\n", #x); exit(1); } } while (0)
using namespace map;
'''


def cpp(main):
    return {"demo.sh": SH, "main.cc": HEAD + main}


SEEDS = [
 dict(id="c02-overwrite-track-view", property="C02",
  edits=[("opensfm/src/map/src/tracks_manager.cc", "  shots_per_track_[track_id][shot_id] = observation;\n", "  shots_per_track_[track_id].emplace(shot_id, observation);\n")],
  needs="an observation that overwrites an existing one of the same image and track",
  breaks="the per-track view keeps the first observation, the per-image view has the last",
  demo_files=cpp('''
int main() {
  TracksManager m;
  m.AddObservation("a", "t", Observation(.1, .2, .3, 1, 2, 3, 7));
  m.AddObservation("a", "t", Observation(.4, .5, .6, 4, 5, 6, 8));
  CHECK(m.GetShotObservations("a").at("t").feature_id == 8);
  CHECK(m.GetTrackObservations("t").at("a").feature_id == 8);
}
''')),
 dict(id="c03-merge-feature-zero", property="C03",
  edits=[("opensfm/src/map/src/tracks_manager.cc", """      for (const auto& [shot_id, obs] : track_observations) {
        observations_per_feature_id[""", """      for (const auto& [shot_id, obs] : track_observations) {
        if (obs.feature_id == 0) {  // unset
          continue;
        }
        observations_per_feature_id[""")],
  needs="two tracks of different managers whose only shared feature has id 0",
  breaks="tracks that share the image's first feature are not merged",
  demo_files=cpp('''
int main() {
  TracksManager m, n;
  m.AddObservation("a", "t", Observation(.1, .2, .3, 1, 2, 3, 0));
  m.AddObservation("b", "t", Observation(.1, .2, .3, 1, 2, 3, 4));
  n.AddObservation("a", "u", Observation(.1, .2, .3, 1, 2, 3, 0));
  n.AddObservation("c", "u", Observation(.1, .2, .3, 1, 2, 3, 5));
  const auto r = TracksManager::MergeTracksManager({&m, &n});
  CHECK(r.NumTracks() == 1);
  CHECK(r.NumShots() == 3);
}
''')),
 dict(id="c04-negative-label", property="C04",
  edits=[("opensfm/src/map/src/tracks_manager.cc", "    const int segm = std::stoi(elems[9]);\n    const int inst = std::stoi(elems[10]);\n", "    const int segm = std::atoi(elems[9].c_str());\n    const int inst = std::atoi(elems[10].c_str());\n")],
  needs="a version 2 file with a non numeric semantic label",
  breaks="a malformed tracks file is accepted with label 0",
  demo_files=cpp('''
int main() {
  const std::string good = "OPENSFM_TRACKS_VERSION_v2\\na\\tt\\t1\\t.1\\t.2\\t.3\\t1\\t2\\t3\\t-1\\t4\\n";
  const auto m = TracksManager::InstanciateFromString(good);
  CHECK(m.GetObservation("a", "t").segmentation_id == -1);
  bool raised = false;
  try {
    TracksManager::InstanciateFromString("OPENSFM_TRACKS_VERSION_v2\\na\\tt\\t1\\t.1\\t.2\\t.3\\t1\\t2\\t3\\tsky\\t4\\n");
  } catch (const std::exception&) {
    raised = true;
  }
  CHECK(raised);
}
''')),
 dict(id="c05-clean-last-observation", property="C05",
  edits=[("opensfm/src/map/src/map.cc", """    if (landmark.NumberOfObservations() < min_observations) {
      // 2) Remove all its observation
      const auto& observations = landmark.GetObservations();
      for (const auto& [shot, feat_id] : observations) {
        shot->RemoveLandmarkObservation(feat_id);
      }
""", """    if (landmark.NumberOfObservations() < min_observations) {
      // 2) Remove all its observation
      const auto& observations = landmark.GetObservations();
      for (const auto& [shot, feat_id] : observations) {
        if (shot->GetLandmarkObservations().size() > 1) {
          shot->RemoveLandmarkObservation(feat_id);
        }
      }
""")],
  needs="a landmark below the threshold which is the only one its shot sees",
  breaks="the shot keeps a reference to the removed landmark",
  demo_files=cpp('''
int main() {
  Map m;
  auto cam = geometry::Camera::CreatePerspectiveCamera(1, 0, 0);
  cam.id = "c";
  m.CreateCamera(cam);
  m.CreateRigCamera(RigCamera(geometry::Pose(), "rc"));
  m.CreateRigInstance("ri");
  m.CreateShot("s", "c", "rc", "ri", geometry::Pose());
  m.CreateLandmark("l", Vec3d(0, 0, 1));
  m.AddObservation("s", "l", Observation(.1, .2, .3, 1, 2, 3, 7));
  m.CleanLandmarksBelowMinObservations(2);
  CHECK(m.GetLandmarks().empty());
  CHECK(m.GetShot("s").GetLandmarkObservations().empty());
}
''')),
]
