import os, runpy
cpp = runpy.run_path(os.path.join(os.path.dirname(__file__), "s02_cpp.py"))["cpp"]
SEEDS = [
 dict(id="c06-bias-with-observations", property="C06",
  edits=[("opensfm/src/map/src/map.cc", """        map_copy->AddObservation(shot_id, landmark->id_, obs);
      }
    }
  }

  for (const auto& [cam_id, bias] : map.GetBiases()) {
    map_copy->SetBias(cam_id, bias);
  }
""", """        map_copy->AddObservation(shot_id, landmark->id_, obs);
      }
    }
    for (const auto& [cam_id, bias] : map.GetBiases()) {
      map_copy->SetBias(cam_id, bias);
    }
  }
""")],
  needs="a deep copy without observations of a reconstruction with a camera bias",
  breaks="the copy silently has the identity bias",
  demo_files=cpp('''
int main() {
  Map m;
  auto c = geometry::Camera::CreatePerspectiveCamera(1.0, 0, 0);
  c.id = "c";
  m.CreateCamera(c);
  m.SetBias("c", geometry::Similarity(Vec3d(0, 0, 0), Vec3d(1, 2, 3), 2.0));
  for (const bool obs : {true, false}) {
    auto d = Map::DeepCopy(m, obs);
    CHECK(d->GetBias("c").Scale() == 2.0);
  }
}
''')),
 dict(id="c06-copy-pano-metadata", property="C06",
  edits=[("opensfm/src/map/src/map.cc", "  to.SetShotMeasurements(from.GetShotMeasurements());\n", "  if (!from.GetShotMeasurements().gps_position_.HasValue()) {\n    to.SetShotMeasurements(from.GetShotMeasurements());\n  } else {\n    to.GetShotMeasurements().gps_position_.SetValue(\n        from.GetShotMeasurements().gps_position_.Value());\n    to.GetShotMeasurements().gps_accuracy_.SetValue(\n        from.GetShotMeasurements().gps_accuracy_.Value());\n  }\n")],
  needs="a deep copy of a shot that has a GPS position and other measurements",
  breaks="the copied shot loses its capture time, orientation, compass, sequence; an absent accuracy becomes present",
  demo_files=cpp('''
int main() {
  Map m;
  auto c = geometry::Camera::CreatePerspectiveCamera(1.0, 0, 0);
  c.id = "c";
  m.CreateCamera(c);
  m.CreateRigCamera(RigCamera(geometry::Pose(), "rc"));
  m.CreateRigInstance("i");
  auto& s = m.CreateShot("s", "c", "rc", "i", geometry::Pose());
  s.GetShotMeasurements().gps_position_.SetValue(Vec3d(1, 2, 3));
  s.GetShotMeasurements().sequence_key_.SetValue("seq");
  auto d = Map::DeepCopy(m, false);
  const auto& t = d->GetShot("s").GetShotMeasurements();
  CHECK(t.gps_position_.Value() == Vec3d(1, 2, 3));
  CHECK(t.sequence_key_.HasValue() && t.sequence_key_.Value() == "seq");
  CHECK(!t.gps_accuracy_.HasValue());
}
''')),
 dict(id="c07-identity-ignores-rotation", property="C07",
  edits=[("opensfm/src/geometry/pose.h", """    return GetOrigin().norm() < epsilon &&
           RotationWorldToCameraMin().norm() < epsilon;""", """    return TranslationWorldToCamera().norm() < epsilon &&
           GetOrigin().norm() < epsilon;""")],
  needs="a single-shot rig instance whose rig camera is rotated but not shifted",
  breaks="the shot's pose ignores its rig camera's rotation",
  demo_files=cpp('''
int main() {
  Map m;
  auto c = geometry::Camera::CreatePerspectiveCamera(1.0, 0, 0);
  c.id = "c";
  m.CreateCamera(c);
  const geometry::Pose rot(Vec3d(0, 0, M_PI / 2), Vec3d(0, 0, 0));
  m.CreateRigCamera(RigCamera(rot, "rc"));
  m.CreateRigInstance("i");
  auto& s = m.CreateShot("s", "c", "rc", "i");
  m.GetRigInstance("i").SetPose(geometry::Pose(Vec3d(0, 0, 0), Vec3d(1, 0, 0)));
  const auto p = *s.GetPose();
  CHECK((p.TranslationWorldToCamera() - Vec3d(0, 1, 0)).norm() < 1e-9);
}
''')),
 dict(id="c07-similarity-scale-order", property="C07",
  edits=[("opensfm/src/geometry/pose.h", """    world_to_cam_.block<3, 1>(0, 3) = t_cw;
    cam_to_world_.block<3, 1>(0, 3) = world_to_cam_.inverse().block<3, 1>(0, 3);""", """    const Vec3d delta = t_cw - TranslationWorldToCamera();
    world_to_cam_.block<3, 1>(0, 3) = t_cw;
    cam_to_world_.block<3, 1>(0, 3) -= RotationWorldToCamera() * delta;""")],
  needs="setting the translation of a pose whose rotation is not symmetric",
  breaks="the origin of the pose is rotated the wrong way",
  demo_files=cpp('''
int main() {
  geometry::Pose p(Vec3d(0, 0, M_PI / 2), Vec3d(0, 0, 0));
  p.SetWorldToCamTranslation(Vec3d(1, 2, 3));
  const Vec3d x(4, 5, 6);
  CHECK((p.TransformCameraToWorld(p.TransformWorldToCamera(x)) - x).norm() < 1e-9);
}
''')),
]
