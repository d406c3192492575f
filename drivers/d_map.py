"""Drive the real reconstruction graph through edit histories."""
import copy
import gc
import numpy as np
from vcommon import *
from opensfm import pymap, pygeometry, types

inp = load_input()
R = rng("map")


def camera(cid):
    c = pygeometry.Camera.create_perspective(0.8, 0.01, -0.02)
    c.id = cid
    return c


def pose():
    return pygeometry.Pose(np.array([R.uniform(-1, 1) for _ in range(3)]), np.array([R.uniform(-5, 5) for _ in range(3)]))


OBS = {}


def ob(s, f):
    k = (s, f)
    if k not in OBS:
        OBS[k] = pymap.Observation(R.uniform(-0.5, 0.5), R.uniform(-0.5, 0.5), R.uniform(0, 0.1),
                                   R.randrange(256), R.randrange(256), R.randrange(256), f,
                                   R.randrange(-1, 9), R.randrange(-1, 9))
        if R.random() < 0.3:
            OBS[k].depth_prior = pymap.Depth(value=R.uniform(1, 5), is_radial=R.random() < 0.5, std_deviation=R.uniform(0, 1))
    return OBS[k]


def val(o):
    d = "-" if o.depth_prior is None else "%s/%s/%d" % (tok(o.depth_prior.value), tok(o.depth_prior.std_deviation), o.depth_prior.is_radial)
    return "|".join([str(o.id), tok(o.point[0]), tok(o.point[1]), tok(o.scale), ",".join(str(int(c)) for c in o.color),
                     str(o.segmentation), str(o.instance), d])


def kind_of(shot):
    return "p" if shot.rig_instance_id.startswith("pano") else "s"


def shot_of(rec, k, s):
    return rec.map.get_shot(s) if k == "s" else rec.map.get_pano_shot(s)


def dump(rec, full=True):
    d = dict(exc="", full=full, cams=[], rcs=[], insts=[], lms=[], shots=[], obsS=[], obsF=[], obsL=[], instS=[], nobs=[], tm=[], valid=[])
    try:
        d["cams"] = list(rec.cameras.keys())
        d["rcs"] = list(rec.rig_cameras.keys())
        d["insts"] = list(rec.rig_instances.keys())
        d["lms"] = list(rec.points.keys())
        assert len(rec.shots) == len(list(rec.shots.keys())) and len(rec.points) == len(d["lms"]), "view length"
        for k, view in (("s", rec.shots), ("p", rec.pano_shots)):
            for sid, sh in view.items():
                assert sh.id == sid and sid in view and view[sid].id == sid, "shot view"
                assert rec.cameras[sh.camera.id].id == sh.camera.id
                assert sh.rig_instance.id == sh.rig_instance_id and sh.rig_camera.id == sh.rig_camera_id
                d["shots"].append([k, sid, sh.camera.id, sh.rig_camera_id, sh.rig_instance_id])
                for lm in sh.get_valid_landmarks():
                    o = sh.get_landmark_observation(lm)
                    d["obsS"].append([k, sid, lm.id, o.id, val(o)])
                    l2 = sh.get_observation_landmark(o.id)
                    d["obsF"].append([k, sid, o.id, l2.id if l2 is not None else "-", val(sh.get_observation(o.id))])
        for lid, lm in rec.points.items():
            assert lm.id == lid and rec.map.has_landmark(lid)
            d["nobs"].append([lid, lm.number_of_observations()])
            for sh, f in lm.get_observations().items():
                d["obsL"].append([lid, kind_of(sh), sh.id, f])
        for iid, inst in rec.rig_instances.items():
            rcs, cms = inst.rig_camera_ids, inst.camera_ids
            assert set(inst.keys()) == set(rcs) == set(cms) == set(inst.shots.keys())
            for sid, sh in inst.shots.items():
                assert sh.id == sid
                d["instS"].append([iid, "p" if iid.startswith("pano") else "s", sid, rcs[sid], cms[sid]])
        if full:
            tm = rec.map.to_tracks_manager()
            d["tm"] = [[s, t, val(o)] for s in tm.get_shot_ids() for t, o in tm.get_shot_observations(s).items()]
            # every observation of a wider tracks manager that has both its shot and landmark
            d["valid"] = [[s, t, val(o)] for s, m in rec.map.get_valid_observations(tm).items() for t, o in m.items()
                          if s in rec.shots]
    except Exception as e:
        d["exc"] = exc_name(e) + ": " + str(e)
    return d


class Run:
    def __init__(self, cid):
        self.cid, self.ev, self.rec, self.keep = cid, [], types.Reconstruction(), []

    def do(self, e, fn):
        progress({"case": self.cid, "n": len(self.ev), "op": e, "history": [x for x in self.ev[-12:] if x["op"] != "dump"]})
        e["exc"] = ""
        try:
            fn()
        except Exception as x:
            e["exc"] = exc_name(x) + ": " + str(x)
        self.ev.append(e)

    def camera(self, i):
        self.do({"op": "create_camera", "id": i}, lambda: self.rec.add_camera(camera(i)))

    def rig_camera(self, i):
        p = pose()
        self.do({"op": "create_rig_camera", "id": i}, lambda: self.rec.map.create_rig_camera(pymap.RigCamera(p, i)))

    def rig_instance(self, i):
        self.do({"op": "create_rig_instance", "id": i}, lambda: self.rec.map.create_rig_instance(i))

    def remove_rig_instance(self, i):
        self.do({"op": "remove_rig_instance", "id": i}, lambda: self.rec.remove_rig_instance(i))

    def create_shot(self, k, s, cam, rc, inst, with_pose=True):
        e = {"op": "create_shot", "k": k, "s": s, "cam": cam, "rc": rc, "inst": inst}
        m = self.rec.map
        if k == "s":
            self.do(e, (lambda: m.create_shot(s, cam, rc, inst, pose())) if with_pose else (lambda: m.create_shot(s, cam, rc, inst)))
        else:
            self.do(e, lambda: m.create_pano_shot(s, cam, rc, inst, pose()))

    def simple_shot(self, k, s, cam):
        rc, inst = (cam, s) if k == "s" else ("panoshot_" + cam, "panoshot_" + s)
        e = {"op": "simple_shot", "k": k, "s": s, "cam": cam, "rc": rc, "inst": inst}
        p = pose() if R.random() < 0.7 else None
        f = self.rec.create_shot if k == "s" else self.rec.create_pano_shot
        self.do(e, lambda: f(s, cam, p))
        e["newrcs"] = [rc] if rc in self.rec.rig_cameras else []
        e["newinsts"] = [inst] if inst in self.rec.rig_instances else []

    def remove_shot(self, k, s):
        f = self.rec.remove_shot if k == "s" else self.rec.remove_pano_shot
        self.do({"op": "remove_shot", "k": k, "s": s}, lambda: f(s))

    def create_landmark(self, l):
        x = np.array([R.uniform(-9, 9) for _ in range(3)])
        self.do({"op": "create_landmark", "l": l}, lambda: self.rec.create_point(l, x))

    def remove_landmark(self, l):
        e = {"op": "remove_landmark", "l": l}
        if R.random() < 0.3 and l in self.rec.points:
            self.do(e, lambda: self.rec.map.remove_landmark(self.rec.points[l]))
        else:
            self.do(e, lambda: self.rec.remove_point(l))

    def add_obs(self, k, s, l, f):
        o = ob(s, f)
        e = {"op": "add_observation", "k": k, "s": s, "l": l, "f": f, "v": val(o)}
        m = self.rec.map
        if k == "p" or R.random() < 0.3:
            self.do(e, lambda: m.add_observation(shot_of(self.rec, k, s), m.get_landmark(l), o))
        else:
            self.do(e, lambda: self.rec.add_observation(s, l, o))

    def rem_obs(self, s, l):
        self.do({"op": "remove_observation", "k": "s", "s": s, "l": l}, lambda: self.rec.remove_observation(s, l))

    def clear(self):
        if R.random() < 0.5:
            self.do({"op": "clear"}, lambda: self.rec.map.clear_observations_and_landmarks())
        else:
            def f():
                self.rec.points = {}
            self.do({"op": "clear"}, f)

    def clean(self, n):
        self.do({"op": "clean", "n": n}, lambda: self.rec.map.clean_landmarks_below_min_observations(n))

    def become_copy(self, w):
        def f():
            new = copy.deepcopy(self.rec, {"copy_observations": True} if w else {})
            self.rec = new
            gc.collect()
        self.do({"op": "become_copy", "obs": w}, f)

    def add_tracks(self, rows):
        tm = pymap.TracksManager()
        for s, l, f in rows:
            tm.add_observation(s, l, ob(s, f))
        self.do({"op": "add_tracks", "rows": [[s, l, f, val(ob(s, f))] for s, l, f in rows]},
                lambda: self.rec.add_correspondences_from_tracks_manager(tm))

    def dump(self, full=True):
        progress({"case": self.cid, "dump after": [x for x in self.ev[-12:] if x["op"] != "dump"]})
        self.ev.append({"op": "dump", "exc": "", "dump": dump(self.rec, full)})

    def case(self):
        return {"id": self.cid, "events": self.ev}


cases = []
for n, b in enumerate(inp["behaviours"]):
    r = Run("spec-%d" % n)
    r.camera("c")
    for s in inp["shots"] + inp["panos"]:
        r.rig_camera("rc_" + s)
    insts = ["rig"] * bool(inp["shots"]) + ["pano_" + s for s in inp["panos"]]
    for i in insts:
        r.rig_instance(i)
    for a in b["h"]:
        k, s, l, f = a["k"], a["s"], a["l"], a["f"]
        if a["op"] == "create_shot":
            r.create_shot(k, s, "c", "rc_" + s, "rig" if k == "s" else "pano_" + s)
        elif a["op"] == "remove_shot":
            r.remove_shot(k, s)
        elif a["op"] == "create_landmark":
            r.create_landmark(l)
        elif a["op"] == "remove_landmark":
            r.remove_landmark(l)
        elif a["op"] == "add_observation":
            r.add_obs(k, s, l, f)
        elif a["op"] == "remove_observation":
            r.rem_obs(s, l)
        elif a["op"] == "clear":
            r.clear()
        elif a["op"] == "clean":
            r.clean(f)
        elif a["op"] == "become_copy":
            r.become_copy(f == 1)
            # the model keeps the rigs around: create the missing ones again
            for s in inp["shots"] + inp["panos"]:
                if "rc_" + s not in r.rec.rig_cameras:
                    r.rig_camera("rc_" + s)
            for i in insts:
                if i not in r.rec.rig_instances:
                    r.rig_instance(i)
    r.dump(n % 4 == 0)
    cases.append(r.case())

for n in range(inp["random"]):
    r = Run("rand-%d" % n)
    nc = R.randrange(1, 4)
    CAMS = ["cam%d" % i for i in range(nc)]
    RCS = ["rc%d" % i for i in range(R.randrange(1, 4))]
    INS = ["inst%d" % i for i in range(R.randrange(1, 4))]
    SH = ["sh%d" % i for i in range(R.randrange(1, 7))]
    PS = ["pa%d" % i for i in range(R.randrange(0, 3))]
    LM = ["%d" % i for i in range(R.randrange(1, 12))]
    feat = {s: R.sample(range(100), len(LM)) for s in SH + PS}
    for c in CAMS:
        r.camera(c)
    for x in RCS:
        r.rig_camera(x)
    for x in INS:
        r.rig_instance(x)
    for l in LM:
        if R.random() < 0.7:
            r.create_landmark(l)
    for _ in range(R.choice([20, 40, 80, 140])):
        x = R.random()
        s, l = R.choice(SH), R.choice(LM)
        if x < 0.13:
            if R.random() < 0.5:
                r.simple_shot("s", s, R.choice(CAMS + ["nocam"]))
            else:
                r.create_shot("s", s, R.choice(CAMS), R.choice(RCS + ["norc"]), R.choice(INS + ["noinst"]), R.random() < 0.7)
        elif x < 0.17 and PS:
            r.simple_shot("p", R.choice(PS), R.choice(CAMS))
        elif x < 0.26:
            r.create_landmark(l)
        elif x < 0.30:
            r.remove_shot("s", s)
        elif x < 0.32 and PS:
            r.remove_shot("p", R.choice(PS))
        elif x < 0.38:
            r.remove_landmark(l)
        elif x < 0.70:
            k = "p" if PS and R.random() < 0.2 else "s"
            s = R.choice(PS) if k == "p" else s
            r.add_obs(k, s, l, feat[s][LM.index(l)])
        elif x < 0.82:
            r.rem_obs(s, l)
        elif x < 0.85:
            r.clean(R.randrange(0, 4))
        elif x < 0.86:
            r.clear()
        elif x < 0.89:
            r.become_copy(R.random() < 0.7)
        elif x < 0.93:
            r.add_tracks([(a, b, feat[a][LM.index(b)]) for a in SH for b in LM if R.random() < 0.3])
        elif x < 0.95:
            r.rig_camera(R.choice(RCS))
        elif x < 0.97:
            r.rig_instance(R.choice(INS))
        elif x < 0.985:
            r.camera(R.choice(CAMS))
        else:
            r.remove_rig_instance(R.choice(INS + ["sh0", "noinst"]))
        if R.random() < 0.12:
            r.dump()
    r.dump()
    cases.append(r.case())
save_output({"cases": cases})
