"""Copies and pickles of the value types, and deep copies of reconstructions."""
import copy
import gc
import pickle
from recval import *

inp = load_input()
R = rng("copy")
u = (lambda s: round(R.uniform(-s, s), 3))


def pk(proto):
    return lambda o: pickle.loads(pickle.dumps(o, proto))


MEAS = [("gps_accuracy", pymap.ShotMeasurementDouble), ("orientation", pymap.ShotMeasurementInt), ("gps_position", pymap.ShotMeasurementVec3d), ("sequence_key", pymap.ShotMeasurementString)]


class Kind:
    tol = 2
    mech = []

    def rows(self, o):
        raise NotImplementedError


class Cam(Kind):
    mech = [copy.copy, copy.deepcopy, pk(2), pk(4), pk(5)]

    def __init__(self):
        self.t = R.choice(CAMTYPES)
        self.name = "camera " + self.t

    def make(self):
        return make_camera(R, "the camera", self.t)

    def rows(self, o):
        return [["id", [], o.id], ["w", [o.width], ""], ["h", [o.height], ""], ["type", [], o.projection_type]] + \
            [[str(k).split(".")[-1], nums([v]), ""] for k, v in o.get_parameters_map().items()]

    def write(self, o):
        w = R.choice(["id", "w", "h", "param", "param", "param"])
        if w == "param" and len(o.get_parameters_map()):
            k = R.choice(list(o.get_parameters_map()))
            v = u(1)
            o.set_parameter_value(k, v)
            n = str(k).split(".")[-1]
            return n, [[n, nums([v]), ""]]
        if w == "w":
            o.width = R.randrange(1, 9000)
            return "w", [["w", [o.width], ""]]
        if w == "h":
            o.height = R.randrange(1, 9000)
            return "h", [["h", [o.height], ""]]
        o.id = v = R.choice(["x", "", "ünï", "a b c"]) + str(R.randrange(99))
        return "id", [["id", [], v]]


class PoseK(Kind):
    name = "pose"
    mech = [copy.copy, copy.deepcopy, pk(2), pk(5)]

    def make(self):
        return rand_pose(R)

    def rows(self, o):
        return [["R", nums(o.get_rotation_matrix()), ""], ["t", nums(o.translation), ""], ["inv", nums(o.get_R_cam_to_world()), ""],
                ["o", [x for x in nums(o.get_origin())], ""]]

    free = True

    def write(self, o):
        if R.random() < .5:
            o.rotation = np.array([u(1) for _ in range(3)])
        else:
            o.translation = np.array([u(9) for _ in range(3)])
        return "", []


class Meas(Kind):
    name = "shot measurements"
    mech = [copy.copy, pk(2), pk(5)]
    F = ["orientation", "capture_time", "gps_accuracy", "gps_position", "gravity_down", "compass_angle", "compass_accuracy", "opk_angles", "opk_accuracy", "sequence_key"]

    def make(self):
        m = rand_metadata(R)
        if R.random() < .6:
            m.attributes = {"a": "1", "ünï": ""}
        if R.random() < .5:
            m.opk_angles.value = np.array([u(9) for _ in range(3)])
        if R.random() < .5:
            m.opk_accuracy.value = u(9)
        return m

    def one(self, o, n):
        v = getattr(o, n)
        return [[n, [], "=" + (v.value if isinstance(v.value, str) else toks(v.value)) if v.has_value else "none"]]

    def rows(self, o):
        r = [x for n in self.F for x in self.one(o, n)]
        return r + [["attributes", [], json.dumps(dict(o.attributes), sort_keys=True)]]

    def write(self, o):
        n = R.choice(self.F + ["attributes"])
        if n == "attributes":
            o.attributes = v = {"k%d" % R.randrange(3): str(R.randrange(9)) for _ in range(R.randrange(3))}
            return n, [[n, [], json.dumps(v, sort_keys=True)]]
        if R.random() < .3:
            getattr(o, n).reset()
            return n, [[n, [], "none"]]
        v = R.randrange(9) if n == "orientation" else "k%d" % R.randrange(9) if n == "sequence_key" else \
            np.array([u(99) for _ in range(3)]) if n in ("gps_position", "gravity_down", "opk_angles") else u(99)
        getattr(o, n).value = v
        return n, [[n, [], "=" + (v if isinstance(v, str) else toks(v))]]


class Scalar(Kind):
    mech = [pk(2), pk(5)]

    def __init__(self):
        self.t = R.choice([pymap.ShotMeasurementInt, pymap.ShotMeasurementDouble, pymap.ShotMeasurementVec3d, pymap.ShotMeasurementString])
        self.name = self.t.__name__

    def val(self):
        return {pymap.ShotMeasurementInt: lambda: R.randrange(9), pymap.ShotMeasurementDouble: lambda: R.choice([0.0, u(9)]),
                pymap.ShotMeasurementVec3d: lambda: np.array([u(9) for _ in range(3)]), pymap.ShotMeasurementString: lambda: R.choice(["", "a", "é"])}[self.t]()

    def make(self):
        o = self.t()
        if R.random() < .6:
            o.value = self.val()
        return o

    def rows(self, o):
        return [["has", [], str(o.has_value)], ["value", [], (o.value if isinstance(o.value, str) else toks(o.value)) if o.has_value else ""]]

    def write(self, o):
        before = self.rows(o)
        while self.rows(o) == before:
            if o.has_value and R.random() < .4:
                o.reset()
            else:
                o.value = self.val()
        return None, self.rows(o)


class RigCam(Kind):
    name = "rig camera"
    mech = [pk(2), pk(5)]
    free = True

    def make(self):
        return pymap.RigCamera(rand_pose(R), "rc")

    def rows(self, o):
        return [["id", [], o.id], ["pose", pose_nums(o.pose), ""]]

    def write(self, o):
        if R.random() < .4:
            o.id = o.id + str(R.randrange(99))
        elif R.random() < .5:
            o.pose = rand_pose(R)
        else:
            o.pose.translation = np.array([u(9) for _ in range(3)])
        return "", []


class Obs(Kind):
    name = "observation"
    mech = [lambda o: o.copy()]
    free = True

    def make(self):
        o = pymap.Observation(u(1), u(1), u(1), 1, 2, 3, R.randrange(9), R.randrange(-1, 9), R.randrange(-1, 9))
        if R.random() < .6:
            o.depth_prior = pymap.Depth(value=u(9), is_radial=True, std_deviation=u(1))
        return o

    def rows(self, o):
        d = o.depth_prior
        return [["point", nums(o.point), ""], ["scale", nums([o.scale]), ""], ["color", [int(c) for c in o.color], ""], ["id", [o.id], ""],
                ["sem", [o.segmentation, o.instance], ""], ["depth", [], "" if d is None else "%s %s %s" % (tok(d.value), d.is_radial, tok(d.std_deviation))]]

    def write(self, o):
        w = R.randrange(6)
        if w == 0:
            o.point = np.array([u(1), u(1)])
        elif w == 1:
            o.scale = o.scale + 1 + abs(u(1))
        elif w == 2:
            o.color = np.array([R.randrange(4, 256) + 300 * R.randrange(2), R.randrange(4, 256), int(o.color[2]) + 1])
        elif w == 3:
            o.id = o.id + R.randrange(1, 99)
        elif w == 4:
            o.segmentation = o.segmentation + 1
        else:
            o.depth_prior = pymap.Depth(value=20 + u(9), is_radial=False, std_deviation=u(1))
        return "", []


def deep_obs(rec):
    return rec.__deepcopy__({"copy_observations": True})


def deep_obs2(rec):
    n = types.Reconstruction()
    n._setup_from_map(pymap.Map.deep_copy(rec.map, True))
    return n


class Rec(Kind):
    name = "reconstruction"
    mech = [copy.deepcopy, deep_obs, deep_obs]
    free = True
    n = 0

    def make(self):
        r = rand_rec(R, observations=True)
        if R.random() < .3:
            r.add_rig_camera(pymap.RigCamera(rand_pose(R), "unused"))
        if R.random() < .3:
            r.add_rig_instance(pymap.RigInstance("empty"))
        return r

    def rows(self, o):
        rows = rec_rows(o)
        for r in rows:
            r[1] = [int(round(x / 1000.0)) for x in r[1]] if not r[0].startswith("camera/") and not r[0].endswith("merge_cc") else r[1]
        for i, s in o.shots.items():
            for lm in s.get_valid_landmarks():
                b = s.get_landmark_observation(lm)
                rows.append(["obs/%s/%s" % (i, lm.id), nums(b.point) + nums([b.scale]) + [int(c) for c in b.color] + [b.id, b.segmentation, b.instance], ""])
        for i, p in o.points.items():
            if p.number_of_observations():
                rows.append(["obsn/" + i, [p.number_of_observations()], ",".join("%s:%d" % (a, b) for a, b in sorted((s.id, f) for s, f in p.get_observations().items()))])
        for i in o.rig_instances.keys():
            rows.append(["inst/%s/shots" % i, [], ",".join(sorted(o.rig_instances[i].keys()))])
        return rows

    def write(self, o):
        Rec.n += 1
        single = [s for s in o.shots.values() if s.rig_instance_id == s.id and s.rig_camera_id == s.camera.id and not np.any(np.abs(np.asarray(s.rig_camera.pose.get_R_cam_to_world()) - np.eye(3)) > 1e-9) and not np.any(np.abs(s.rig_camera.pose.translation) > 1e-9) and len(s.rig_instance.keys()) == 1]
        acts = ["camera", "bias", "newshot", "newpoint", "ref", "size"]
        acts += ["point", "color", "delpoint", "errors"] * bool(len(o.points)) + ["scale", "cc", "meta", "mesh", "delshot", "inst"] * bool(len(o.shots))
        acts += ["pano"] * bool(len(o.pano_shots)) + ["rigcam"] * bool(len(o.rig_cameras))
        acts += ["pose"] * bool(single)
        w = R.choice(acts)
        d = round(1 + abs(u(5)), 2)
        if w == "camera":
            c = R.choice([c for c in o.cameras.values() if True])
            if c.projection_type == "spherical":
                w = "newpoint"
            else:
                c.focal = c.focal + d
                return w, []
        if w == "size":
            c = R.choice(list(o.cameras.values()))
            c.width = c.width + 1
        elif w == "bias":
            o.set_bias(R.choice(list(o.cameras.keys())), pygeometry.Similarity(np.zeros(3), np.array([d + 100, 0, 0]), 1.0 + d))
        elif w == "newshot":
            o.create_shot("new%d" % Rec.n, R.choice(list(o.cameras.keys())), rand_pose(R))
        elif w == "newpoint":
            o.create_point("new%d" % Rec.n, np.array([d, 0, 0]))
        elif w == "ref":
            o.reference = geo.TopocentricConverter(d, 2.0, Rec.n)
        elif w == "point":
            p = R.choice(list(o.points.values()))
            p.coordinates = p.coordinates + d
        elif w == "color":
            p = R.choice(list(o.points.values()))
            p.color = np.array([int(p.color[0]) + 1, 2, 3])
        elif w == "errors":
            p = R.choice(list(o.points.values()))
            p.color = np.array([1, int(p.color[1]) + 1, 3])
        elif w == "delpoint":
            o.remove_point(R.choice(list(o.points.keys())))
        elif w == "scale":
            s = R.choice(list(o.shots.values()))
            s.scale = s.scale + d
        elif w == "cc":
            s = R.choice(list(o.shots.values()))
            s.merge_cc = s.merge_cc + 1
        elif w == "meta":
            s = R.choice(list(o.shots.values()))
            s.metadata.gps_accuracy.value = d + 1000 + Rec.n
        elif w == "mesh":
            s = R.choice(list(o.shots.values()))
            s.mesh.vertices = np.array([[d, Rec.n, 2.0]])
            s.mesh.faces = np.array([[0.0, 0, Rec.n]])
        elif w == "delshot":
            o.remove_shot(R.choice(list(o.shots.keys())))
        elif w == "inst":
            i = o.rig_instances[R.choice(list(o.shots.values())).rig_instance_id]
            ps = pygeometry.Pose(i.pose.rotation, i.pose.translation + d)
            i.pose = ps
        elif w == "pano":
            s = R.choice(list(o.pano_shots.values()))
            s.scale = s.scale + d
        elif w == "rigcam":
            c = R.choice(list(o.rig_cameras.values()))
            c.pose = pygeometry.Pose(c.pose.rotation, c.pose.translation + d)
        elif w == "pose":
            s = R.choice(single)
            s.pose.set_origin(s.pose.get_origin() + d)
        return w, []


def run(cid, kind, script):
    objs, evs = [], []
    progress({"case": cid, "kind": kind.name, "script": script})

    def ev(op, fn, **k):
        e = dict(op=op, exc="", objs=[], i=0, tol=kind.tol, full=True, free=False, touch="", rows=[])
        e.update(k)
        try:
            r = fn()
            if op == "set":
                t, rows = r
                e["rows"] = rows
                e["free"] = bool(getattr(kind, "free", False))
                e["what"] = e["touch"] = t or ""
                if t is None:
                    e["rows"], e["free"] = [], True
            e["objs"] = [[] if o is None else kind.rows(o) for o in objs]
        except Exception as x:
            e["exc"] = exc_name(x) + ": " + str(x)[:200]
        evs.append(e)
    ev("new", lambda: objs.append(kind.make()))
    for s in script:
        i = s["i"] - 1
        if s["op"] == "copy":
            m = R.choice(kind.mech)
            ev("copy", lambda: objs.append(m(objs[i])), i=s["i"], full=not (kind.name == "reconstruction" and m is copy.deepcopy))
            if evs[-1]["exc"]:
                break
        elif s["op"] == "drop":
            objs[i] = None
            gc.collect()
            ev("drop", lambda: None, i=s["i"])
        else:
            ev("set", lambda: kind.write(objs[i]), i=s["i"])
    return {"id": cid, "kind": kind.name, "events": evs}


def rand_script():
    n, alive, out = 1, [1], []
    for _ in range(R.randrange(3, 9)):
        op = R.choice(["copy", "set", "set", "drop"] if n < 5 else ["set", "drop"])
        i = R.choice(alive)
        if op == "copy":
            n += 1
            alive.append(n)
        elif op == "drop":
            if len(alive) == 1:
                continue
            alive.remove(i)
        out.append({"op": op, "i": i})
    return out


cases = []
VAL = [Cam, PoseK, Meas, Scalar, RigCam, Obs]
for n, b in enumerate(inp["behaviours"]):
    cases.append(run("spec-%d" % n, VAL[n % len(VAL)]() if n % 4 else Rec(), b))
for n in range(inp["random"]):
    cases.append(run("rand-%d" % n, R.choice(VAL + [Rec, Rec])(), rand_script()))
save_output({"cases": cases})
