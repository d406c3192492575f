"""The annotation tool: control points, their files, and the analysis of annotations."""
import json
import math
import os
import shutil
import sys
import cv2
import numpy as np
from vcommon import *
from recval import make_camera, rand_pose
import opensfm
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(opensfm.__file__)))
sys.path.insert(0, ROOT)
from annotation_gui_gcp.lib import gcp_manager
from annotation_gui_gcp import run_ba
from opensfm import geo, io, pygeometry, pymap, types
from opensfm.dataset import DataSet

inp = load_input()
R = rng("gcp")
cases = []
gcp_manager.print = lambda *a, **k: None


def opt(x, scale=1000000):
    return [] if x is None else [q(x, scale)]


def geo_of(g):
    return [opt(g.get(k), s) for k, s in (("latitude", 1000000), ("longitude", 1000000), ("horizontal_std", 1000000), ("measured_at", 1), ("altitude", 1000000), ("vertical_std", 1000000))]


def obs_of(o):
    xy = o["projection"] if "projection" in o else o["point"]
    return [o["shot_id"], [q(v) for v in xy], opt(o.get("precision"))]


def pts_of(points):
    return [[p["id"], geo_of(p["position"]) if p.get("position") else [], [obs_of(o) for o in p.get("observations", [])]] for p in points]


def rand_geo(full):
    g = {"latitude": R.randrange(-80 * 64, 80 * 64) / 64, "longitude": R.randrange(-179 * 64, 179 * 64) / 64}
    if full or R.random() < .5:
        g["measured_at"] = R.randrange(1, 10 ** 9)
    for k, v in (("altitude", R.choice([0., 12.5, -3.])), ("vertical_std", R.choice([.5, 0., 10.])), ("horizontal_std", R.choice([.25, 5., 0.]))):
        if R.random() < .6:
            g[k] = v
    return g


def coord():
    return R.randrange(-32, 33) / 64


def rand_file(ids, shots):
    out = []
    for i in ids:
        p = {"id": i}
        if R.random() < .7:
            p["position"] = rand_geo(False)
        if R.random() < .9:
            p["observations"] = []
            for s in R.sample(shots, R.randrange(0, len(shots) + 1)):
                o = {"shot_id": s}
                if R.random() < .75:
                    o["projection"] = [coord(), coord()]
                else:
                    o["point"] = [coord() * 9, coord(), coord()]
                if R.random() < .6:
                    o["precision"] = R.choice([.001, .004, .5])
                p["observations"].append(o)
        out.append(p)
    return out


def book(ops, shots, fixed=None):
    path = os.path.join(SCRATCH, "gcp")
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path + "/images")
    open(path + "/images/s1.jpg", "w").write("x")
    man = gcp_manager.GroundControlPointManager(path)
    events = []
    names = {}  # name the model gives -> name of the tool
    for k, (op, a, b, g) in enumerate(ops):
        e = dict(op=op, exc="")
        try:
            a2 = names.get(a, a)
            if op == "disk":
                f = [] if a == "no" else fixed if fixed is not None else rand_file(["0", "m"], shots)
                e["file"] = pts_of(f)
                if a != "no":
                    json.dump({"points": f}, open(path + "/ground_control_points.json", "w"))
            elif op == "add":
                e["res"] = man.add_point()
                names[a] = e["res"]
            elif op == "rem":
                e["id"] = a2
                man.remove_gcp(a2)
            elif op == "obs":
                e["id"] = a2
                if a2 not in man.points or man.get_observation(a2, b) is not None:
                    continue
                xy = tuple(coord() for _ in range(R.choice([2, 2, 3])))
                pr = R.choice([.001, .25])
                gg = rand_geo(True) if g else None
                e["geo"] = geo_of(gg) if gg else []
                e["obs"] = [b, [q(v) for v in xy], [q(pr)]]
                man.add_point_observation(a2, b, xy, pr, gg)
            elif op == "unobs":
                e["id"], e["shot"], e["geo"] = a2, b, g
                if a2 not in man.points:
                    continue
                man.remove_point_observation(a2, b, bool(g))
            elif op == "save":
                man.write_to_file(None)
                with open(path + "/ground_control_points.json") as f:
                    got = io.read_ground_control_points(f)
                e["read"] = []
                for p in got:
                    lla = p.lla
                    e["read"].append([p.id, ([q(lla["latitude"]), q(lla["longitude"])] + ([q(lla["altitude"])] if p.has_altitude else [])) if lla else [], [[o.shot_id, []] for o in p.observations]])
                    raw = man.points[p.id].observations
                    for o, r, x in zip(p.observations, raw, e["read"][-1][2]):
                        if isinstance(r, gcp_manager.PointMeasurement):
                            x[1] = [q(float(v)) for v in o.projection]
            elif op == "load":
                if not os.path.exists(path + "/ground_control_points.json"):
                    continue
                man.load_from_file(None)
            elif op == "rep":
                ids = R.sample(["0", "1", "2", "m", "zz"], R.randrange(1, 5))
                rep = {i: {s: {"error": R.randrange(0, 5) / 4} for s in R.sample(shots, R.randrange(0, len(shots) + 1))} for i in ids}
                json.dump(rep, open(path + "/rep.json", "w"))
                man.load_gcp_reprojections(path + "/rep.json")
                e["rep"] = [[i, [[s, q(x["error"])] for s, x in v.items()]] for i, v in rep.items()]
            elif op == "norep":
                e["op"], e["rep"] = "rep", []
                man.load_gcp_reprojections(path + "/absent.json")
            elif op == "look":
                e["shot"] = b
                e["vis"] = [[i, [q(x) for x in (v[:3] if len(v) == 4 else v[:2])], opt(v[-1])] for i, v in man.get_visible_points_coords(b).items()]
                e["has"] = [int(man.get_observation(i, b) is not None) for i in man.points]
            elif op == "worst":
                e["res"] = man.get_worst_gcp() or "none"
            elif op == "most":
                if a not in man.gcp_reprojections:
                    continue
                e["id"] = a
                e["shots"] = R.sample(shots + ["other"], R.randrange(0, len(shots) + 2))
                e["res"] = man.shot_with_max_gcp_error(e["shots"], a) or "none"
        except Exception as x:
            e["exc"] = exc_name(x) + ": " + str(x)[:200]
        try:
            e["post"] = pts_of(json.loads(json.dumps(man.points_to_json())))
        except Exception as x:
            e["exc"] = exc_name(x)
            e["post"] = []
        progress(e)
        events.append(e)
    cases.append(dict(kind="book", events=events))
    shutil.rmtree(path, ignore_errors=True)


for ops in inp["book"]:
    out = []
    for o in ops:
        out.append(o)
        if R.random() < .25:
            out.append(["look", "", R.choice(["s1", "s2"]), 0])
    book(out, ["s1", "s2"])
for _ in range(inp["randbook"]):
    shots = ["s%d" % k for k in range(R.randrange(1, 5))]
    ids = [str(k) for k in range(6)] + ["m", "zz"]
    ops = [["disk", R.choice(["yes", "no"]), "", 0]]
    live = []
    for _ in range(R.randrange(5, 40)):
        op = R.choice(["add", "add", "rem", "obs", "obs", "obs", "obs", "unobs", "save", "load", "rep", "norep", "look", "worst", "most", "worst"])
        ops.append([op, "new%d" % len(ops) if op == "add" else R.choice(ids + [o[1] for o in ops if o[0] == "add"]) if op in ("rem", "obs", "unobs") else R.choice(ids), R.choice(shots), R.randrange(2)])
    book(ops, shots, rand_file(R.sample(["0", "1", "2", "5", "m", "zz", "gcp é"], R.randrange(0, 6)), shots))


def case(kind, fn, **k):
    e = dict(op=kind, exc="")
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind=kind, events=[e]))


def looking(at, o, roll=0.):
    """Pose of a camera at o that looks at a point."""
    z = (at - o) / np.linalg.norm(at - o)
    x = np.cross(z, [0.1, 0.2, 1.])
    x /= np.linalg.norm(x)
    y = np.cross(z, x)
    p = pygeometry.Pose()
    p.set_rotation_matrix(np.array([x, y, z]))
    p.set_origin(o)
    return p


def rec_of(n, cams, prefix="s"):
    r = types.Reconstruction()
    r.reference = geo.TopocentricConverter(40., 3., 10.)
    for c in cams:
        r.add_camera(c)
    for k in range(n):
        o = np.array([R.uniform(-10, 10), R.uniform(-10, 10), R.uniform(15, 30)])
        r.create_shot("%s%d" % (prefix, k), R.choice(cams).id, looking(np.array([R.uniform(-2, 2), R.uniform(-2, 2), 0.]), o))
    return r


def gcp_of(rec, gid, X, noise, others=()):
    p = pymap.GroundControlPoint()
    p.id = gid
    obs = []
    shots = sorted(rec.shots.keys())
    for s in R.sample(shots, R.randrange(0, len(shots) + 1)) + list(others):
        o = pymap.GroundControlPointObservation()
        o.shot_id = s
        if s in rec.shots:
            xy = rec.shots[s].project(X)
            o.projection = np.array(xy) + np.array([R.uniform(-noise, noise), R.uniform(-noise, noise)])
        else:
            o.projection = np.array([.1, .2])
        obs.append(o)
    R.shuffle(obs)
    p.observations = obs
    return p


def cam(i):
    c = pygeometry.Camera.create_perspective(R.uniform(.6, 1.2), R.uniform(-.02, .02), 0.)
    c.id = i
    c.width, c.height = 640, 480
    return c


for _ in range(inp["reproj"]):
    rec = rec_of(R.randrange(2, 6), [cam("c0"), cam("c1")])
    gcps, meta = [], []
    for k in range(R.randrange(1, 5)):
        X = np.array([R.uniform(-3, 3), R.uniform(-3, 3), R.uniform(-1, 1)])
        exact = R.randrange(2)
        p = gcp_of(rec, "g%d" % k, X, 0. if exact else .01, ["far"] if R.random() < .3 else [])
        off = np.array([R.uniform(-4, 4), R.uniform(-4, 4), R.uniform(-4, 4)]) * R.choice([0, 1, 1])
        has = int(R.random() < .8)
        if has:
            la, lo, al = rec.reference.to_lla(*(X + off))
            p.lla = {"latitude": la, "longitude": lo, "altitude": al}
            p.has_altitude = True
        gcps.append(p)
        meta.append((X, exact, off, has))

    def reproj(e):
        got = run_ba.reproject_gcps(gcps, rec, 1.)
        ge = run_ba.gcp_geopositional_error(gcps, rec)
        thr = .004
        e["thr"] = q(thr)
        wrong = run_ba.get_number_of_wrong_annotations_per_gcp(got, thr)
        e["sorted"] = [q(x[2]) for x in run_ba.get_sorted_reprojection_errors(got)]
        e["gcps"], e["wrong"] = [], []
        for p, (X, exact, off, has) in zip(gcps, meta):
            e["wrong"].append(int(wrong[p.id]))
            rep = []
            for s, v in sorted(got[p.id].items()):
                err = 0.
                if s in rec.shots:
                    o = [o for o in p.observations if o.shot_id == s][0]
                    pt = np.array(rec.reference.to_topocentric(*v["lla"]))
                    err = float(np.linalg.norm(rec.shots[s].project(pt) - o.projection))
                rep.append([s, q(v["error"]), [q((v["lla"][0] - 40.) * 1e5), q((v["lla"][1] - 3.) * 1e5), q(v["lla"][2])], q(err)])
            la, lo, al = rec.reference.to_lla(*X)
            g = ge[p.id]
            e["gcps"].append(dict(rep=rep, exact=exact, haslla=has, seen=len([o for o in p.observations if o.shot_id in rec.shots]), shots=sorted(o.shot_id for o in p.observations),
                                  lla=[q((la - 40.) * 1e5), q((lo - 3.) * 1e5), q(al)],
                                  geo=[] if math.isnan(g["error"]) else [q(g["error"]), q(g["error_planar"])],
                                  off=[q(np.linalg.norm(off)), q(np.linalg.norm(off[:2]))] if has else []))
    case("reproj", reproj)

for _ in range(inp["merge"]):
    recs, tm = [], pymap.TracksManager()
    for k in range(R.randrange(1, 4)):
        r = rec_of(R.randrange(1, 4), [cam("c%d_%d" % (k, j)) for j in range(R.randrange(1, 3))], "r%ds" % k)
        for j in R.sample(range(5), R.randrange(0, 5)):
            pt = r.create_point(str(j), np.array([R.uniform(-1, 1) for _ in range(3)]))
            pt.color = np.array([j, k, 3])
            for s in r.shots.keys():
                if R.random() < .7:
                    tm.add_observation(s, str(j), pymap.Observation(.1 * j, .2, .01, j, 2, 3, 4))
        recs.append(r)

    def ser(r):
        return dict(shots=sorted([s, [q(float(v)) for v in np.ravel(r.shots[s].pose.get_Rt())], r.shots[s].camera.id] for s in r.shots.keys()),
                    points=sorted([[q(float(v)) for v in p.coordinates], [int(c) for c in p.color]] for p in r.points.values()), cams=sorted(r.cameras.keys()))

    def merge(e):
        e["recs"] = [ser(r) for r in recs]
        for k, r in enumerate(recs):
            for p in list(r.points.keys()):
                pass
        m = run_ba.merge_reconstructions(recs, tm)
        s = ser(m)
        e["shots"], e["points"] = s["shots"], s["points"]
        n = sum(len(m.points[p].get_observations()) for p in m.points.keys())
        want = sum(1 for k, r in enumerate(recs) for s_ in r.shots.keys() if s_ in tm.get_shot_ids() for t in tm.get_shot_observations(s_) if t in r.points)
        if n != want:
            raise ValueError("%d observations instead of %d" % (n, want))
        back = run_ba.resplit_reconstruction(m, recs)
        e["back"] = [ser(r) for r in back]
    case("merge", merge)

for _ in range(inp["align"]):
    n = R.randrange(3, 8)
    P = [np.array([R.uniform(-5, 5) for _ in range(3)]) for _ in range(n)]
    s = R.uniform(.2, 5)
    A = cv2.Rodrigues(np.array([R.uniform(-2, 2) for _ in range(3)]))[0]
    b = np.array([R.uniform(-5, 5) for _ in range(3)])
    Q = [s * A.dot(p) + b for p in P]
    extra = R.randrange(0, 3)
    P2, Q2 = list(P), list(Q)
    for _ in range(extra):
        k = R.randrange(len(P2) + 1)
        one = R.randrange(2)
        P2.insert(k, None if one else np.array([1., 2, 3]))
        Q2.insert(k, None if not one or R.random() < .3 else np.array([9., 9, 1]))

    def align(e):
        gs, gA, gb = run_ba.find_alignment(P2, Q2)
        e["got"] = [q(float(x)) for x in [gs] + list(np.ravel(gA)) + list(gb)]
        e["want"] = [q(float(x)) for x in [s] + list(np.ravel(A)) + list(b)]
    if np.linalg.svd(np.array(P) - np.mean(P, axis=0))[1][1 if n == 3 else 2] > .8:
        case("align", align)

for n in range(inp["resect"]):
    path = os.path.join(SCRATCH, "gcpr%d" % n)
    os.makedirs(path + "/images")
    base = rec_of(R.randrange(3, 6), [cam("c0")])
    lone = R.randrange(1, 3)
    c1 = cam("c1")
    extra = rec_of(lone, [c1], "lone")
    gcps = []
    few = {k: R.random() < .3 for k in range(lone)}
    for k in range(R.randrange(7, 12)):
        X = np.array([R.uniform(-3, 3), R.uniform(-3, 3), R.uniform(-2, 2)])
        p = pymap.GroundControlPoint()
        p.id = "g%d" % k
        obs = []
        for r in (base, extra):
            for s in sorted(r.shots.keys()):
                if r is extra and few[int(s[4:])] and k > 1:
                    continue
                o = pymap.GroundControlPointObservation()
                o.shot_id = s
                o.projection = np.array(r.shots[s].project(X))
                obs.append(o)
        o = pymap.GroundControlPointObservation()
        o.shot_id = "absent"
        o.projection = np.array([.1, .1])
        obs.append(o)
        p.observations = obs
        gcps.append(p)
    for s in list(base.shots.keys()) + list(extra.shots.keys()):
        open(path + "/images/%s.jpg" % s, "w").write("x")

    def resect(e):
        class D:
            def images(self):
                return list(extra.shots.keys()) + list(base.shots.keys())

            def load_exif(self, im):
                return {"camera": "c1", "orientation": 1, "capture_time": 1.}

            def load_reference(self):
                return base.reference
            config = {"use_exif_size": True, "use_altitude_tag": False}
        e["base"] = sorted(base.shots.keys())
        got = run_ba.resect_annotated_single_images(base, gcps, {"c1": c1}, D())
        e["base2"] = sorted(base.shots.keys())
        e["got"] = sorted(got.shots.keys())
        e["want"] = ["lone%d" % k for k in range(lone) if not few[k]]
        e["poses"] = []
        for x in got.shots.values():
            if x.id not in extra.shots:
                continue
            worst = 0.
            for p in gcps:
                o = [o for o in p.observations if o.shot_id == x.id]
                X = run_ba.triangulate_gcps([p], base)[0]
                if o and X is not None:
                    y = x.pose.transform(X)
                    worst = max(worst, float(np.linalg.norm(y / np.linalg.norm(y) - c1.pixel_bearing(o[0].projection))))
            e["poses"].append([x.id, q(worst), x.camera.id])
    case("resect", resect)
    shutil.rmtree(path, ignore_errors=True)
save_output(dict(cases=cases))
