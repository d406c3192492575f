"""Statistics of reconstructions."""
import json
import math
import os
import shutil
import matplotlib
matplotlib.use("Agg")
import cv2
import numpy as np
from vcommon import *
from recval import make_camera
from opensfm import features, geo, pygeometry, pymap, stats, types
from opensfm.dataset import DataSet
from opensfm.actions import compute_statistics

inp = load_input()
R = rng("stats")
cases = []
REF = geo.TopocentricConverter(40., 3., 0.)


def case(kind, fn, **k):
    e = dict(op=kind, exc="")
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind=kind, events=[e]))


def unit():
    v = np.array([R.gauss(0, 1) for _ in range(3)])
    return v / np.linalg.norm(v)


def down(o, tilt):
    """A camera at o that looks down."""
    r = cv2.Rodrigues(unit() * tilt)[0] @ np.array([[1., 0, 0], [0, -1, 0], [0, 0, -1]])
    p = pygeometry.Pose()
    p.set_rotation_matrix(r)
    p.set_origin(o)
    return p


def params(c, names):
    return sorted([n, q(float(getattr(c, n) if hasattr(c, n) else 0.))] for n in names)


def scene(n, lens=None, posns=None, plot=False):
    path = os.path.join(SCRATCH, "stats%d" % n)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path + "/images")
    S = dict(path=path)
    ncams = R.randrange(1, 4)
    initial = {"cam %d" % k: make_camera(R, "cam %d" % k, "perspective" if plot or lens else R.choice(["perspective", "brown", "fisheye"])) for k in range(ncams)}
    rigs0 = {"rig%d" % k: pymap.RigCamera(pygeometry.Pose(unit(), unit()), "rig%d" % k) for k in range(R.randrange(0, 3))}
    tm = pymap.TracksManager()
    recs, meta = [], []
    nrec = len(lens) if lens else R.choice([1, 1, 2, 3])
    side = R.choice([-1, 1, 0])  # all coordinates negative, positive, or any
    track = 0
    images, errs = [], []
    S["inputs"] = []
    for k in range(nrec):
        r = types.Reconstruction()
        r.reference = REF
        used = sorted(initial) if lens else R.sample(sorted(initial), R.randrange(1, ncams + 1))
        for c in used:
            cam = make_camera(R, c, initial[c].projection_type)
            cam.width, cam.height = initial[c].width, initial[c].height
            r.add_camera(cam)
            r.set_bias(c, pygeometry.Similarity(unit() * R.uniform(0, 1), unit() * R.choice([0, R.uniform(0, 5)]), R.choice([1, R.uniform(.5, 2)])))
        urigs = R.sample(sorted(rigs0), R.randrange(0, len(rigs0) + 1))
        for i in urigs:
            r.add_rig_camera(pymap.RigCamera(pygeometry.Pose(unit(), unit()), i))
        nshots = max([3] + lens[k]["lens"]) if lens else R.randrange(0 if not plot else 3, 7)
        m = dict(lens=[], shots=[], cams=[], rigs=[], size=nshots)
        for j in range(nshots):
            sid = "r%d_%d.jpg" % (k, j)
            xy = [R.randrange(-80, 81), R.randrange(-80, 81)]
            if side:
                xy = [side * abs(v) + side * 8 for v in xy]
            if lens:
                xy = [(lens[k]["pos"] - 10) * 8, R.randrange(-8, 8)]
            o = np.array([xy[0] / 8, xy[1] / 8, R.uniform(35, 50)])
            c = R.choice(used)
            shot = r.create_shot(sid, c, down(o, R.uniform(0, .1)))
            shot.metadata.capture_time.value = float(R.randrange(1000))
            gps = int(R.random() < .5)
            if gps:
                err = np.array([R.uniform(-1.5, 1.5) for _ in range(3)])
                b = r.biases[c]
                bR = cv2.Rodrigues(np.array(b.rotation))[0]
                g = bR.T.dot((o - err) - np.array(b.translation)) / b.scale
                shot.metadata.gps_position.value = g
                m.setdefault("gpserr", []).append([q(v, 1000) for v in err] + [q(np.linalg.norm(err), 1000)])
            m["shots"].append(dict(id=sid, xy=xy, gps=gps))
            images.append(sid)
        ids = [s["id"] for s in m["shots"]]
        npts = len(lens[k]["lens"]) if lens else R.randrange(5, 40) if plot else R.randrange(0, 25)
        if not ids:
            npts = 0
        asobs = R.random() < .5
        per = {i: 0 for i in ids}
        for j in range(npts):
            X = np.array([R.uniform(-12, 12), R.uniform(-12, 12), R.uniform(-2, 2)])
            if lens is None and ids:  # near below a shot
                X = X + np.array([np.mean([s["xy"][0] / 8 for s in m["shots"]]), np.mean([s["xy"][1] / 8 for s in m["shots"]]), 0.])
            L = lens[k]["lens"][j] if lens else min(len(ids), R.choice([1, 2, 2, 3, 4, 6]))
            tid = str(track)
            track += 1
            lost = lens is None and R.random() < .15  # not reconstructed
            if not lost:
                pt = r.create_point(tid, X)
                pt.color = np.array([1, 2, 3])
                # a point may have lost some of the observations of its track
                own = R.randrange(2, L + 1) if asobs and lens is None and L > 2 and R.random() < .5 else L
                m["lens"].append(own)
            for i, s in enumerate(R.sample(ids, L)):
                sh = r.shots[s]
                w = max(sh.camera.width, sh.camera.height)
                d = unit()[:2]
                px = R.uniform(.3, 3.8) if R.random() < .85 else R.uniform(4.2, 30.)
                xyp = sh.project(X) + d / np.linalg.norm(d) * px / w
                sc = R.choice([.0008, .004, .01, .5])
                ob = pymap.Observation(float(xyp[0]), float(xyp[1]), sc, 1, 2, 3, track)
                tm.add_observation(s, tid, ob)
                if lost:
                    continue
                per[s] += 1
                if asobs and i < own:
                    r.add_observation(s, tid, ob)
                er = xyp - sh.project(X)
                if px <= 4:
                    S.setdefault("resid", set()).add(sh.camera.id)
                dirn = X - sh.pose.get_origin()
                bear = sh.pose.get_rotation_matrix().T.dot(sh.camera.pixel_bearing(xyp))
                ang = math.atan2(np.linalg.norm(np.cross(dirn, bear)), dirn.dot(bear))
                errs.append([q(np.linalg.norm(er) * w), q(np.linalg.norm(er) / sc), q(ang, 1e9)])
        m["per"] = [per[i] for i in ids]
        S["used_%d" % k] = used
        m["cams"] = [[c, r.cameras[c], r.biases[c]] for c in used]
        m["rigs"] = [[i, r.rig_cameras[i]] for i in urigs]
        recs.append(r)
        meta.append(m)
    extra = ["alone%d.jpg" % k for k in range(R.randrange(1, 3))]
    for im in images + extra:
        open(path + "/images/" + im, "w").write("x")
    data = DataSet(path)
    for im in images + extra:
        data.save_exif(im, {"camera": "cam 0", "width": 10, "height": 10, "gps": {}, "orientation": 1})
    data.save_camera_models(initial)
    data.save_reference(REF)
    S.update(data=data, tm=tm, recs=recs, meta=meta, images=images, extra=extra, errs=errs, initial=initial, rigs0=rigs0, tracks=track)
    S["observed"] = tm.num_tracks()
    if rigs0:
        data.save_rig_cameras(rigs0)
    # features
    S["det"] = []
    for im in images + extra:
        if im in images or R.random() < .5:
            k = R.randrange(1, 40)
            data.save_features(im, features.FeaturesData(np.zeros((k, 3)), np.zeros((k, 4), dtype=np.uint8), np.zeros((k, 3)), None))
            if im in images:
                S["det"].append(k)
    # control points
    gcps, S["gcperr"] = [], []
    for k in range(R.choice([0, 0, 1, 3, 5])):
        p = pymap.GroundControlPoint()
        p.id = "g%d" % k
        err = np.array([R.uniform(-1.5, 1.5) for _ in range(3)])
        obs, base = [], None
        for r, m in zip(recs, meta):
            X = np.array([R.uniform(-10, 10), R.uniform(-10, 10), R.uniform(-2, 2)])
            ids = [s["id"] for s in m["shots"]]
            sel = [i for i in R.sample(ids, R.randrange(0, len(ids) + 1))]
            if len(sel) >= 2:
                a = [r.shots[i].pose.get_origin() - X for i in sel]
                wide = max(math.degrees(math.atan2(np.linalg.norm(np.cross(u, v)), u.dot(v))) for u in a for v in a)
                if wide < .5:
                    sel = sel[:1]
            for i in sel:
                o = pymap.GroundControlPointObservation()
                o.shot_id = i
                o.projection = r.shots[i].project(X)
                obs.append(o)
            if len(sel) >= 2 and base is None:
                base = X
        R.shuffle(obs)
        p.observations = obs
        if R.random() < .8:
            la, lo, al = REF.to_lla(*((base if base is not None else np.zeros(3)) - err))
            p.lla = {"latitude": la, "longitude": lo, "altitude": al}
            p.has_altitude = True
            if base is not None:
                S["gcperr"].append([q(v, 1000) for v in err] + [q(np.linalg.norm(err), 1000)])
        gcps.append(p)
    if gcps:
        data.save_ground_control_points(gcps)
    S["hasgcp"] = int(bool(gcps))
    return S


def public(S):
    return [dict(lens=m["lens"], shots=m["shots"]) for m in S["meta"]]


def recon(S):
    def fn(e):
        o = stats.reconstruction_statistics(S["data"], S["tm"], S["recs"])
        e["out"] = dict(components=o["components"], gps=int(o["has_gps"]), gcp=int(o["has_gcp"]), shots0=o["initial_shots_count"], points0=o["initial_points_count"],
                        points=o["reconstructed_points_count"], shots=o["reconstructed_shots_count"], obs=o["observations_count"],
                        hist=[[int(k), int(v)] for k, v in o["histogram_track_length"].items()], len=q(o["average_track_length"]), len2=q(o["average_track_length_over_two"]),
                        px=q(o["reprojection_error_pixels"]), nm=q(o["reprojection_error_normalized"]), ang=q(o["reprojection_error_angular"], 1e9 if o["reprojection_error_angular"] >= 0 else 1e6))
        for a, b, sc in (("px", "pixels", 1e6), ("nm", "normalized", 1e6), ("ang", "angular", 1e9)):
            h, bins = o["reprojection_histogram_" + b]
            e["out"]["h" + a] = [int(v) for v in h]
            e["out"]["b" + a] = [q(v, sc) for v in bins]
    case("recon", fn, recs=public(S), errs=S["errs"], hasgcp=S["hasgcp"], images=len(S["images"] + S["extra"]), tracks=S["observed"])


def proc(S):
    def fn(e):
        want = []
        os.makedirs(S["path"] + "/reports", exist_ok=True)
        for f in ("features.json", "matches.json", "tracks.json", "reconstruction.json"):
            kind = R.choice(["none", "one", "many", "other"])
            t = [R.randrange(0, 100) for _ in range(R.randrange(1, 4))]
            if kind == "none":
                want.append(-1000)
                continue
            obj = {"x": 1}
            if kind == "one":
                obj["wall_time"] = t[0]
            elif kind == "many":
                obj["wall_times"] = {str(i): v for i, v in enumerate(t)}
            json.dump(obj, open(S["path"] + "/reports/" + f, "w"))
            want.append(t[0] * 1000 if kind == "one" else sum(t) * 1000 if kind == "many" else -1000)
        e["file"] = R.randrange(2)
        if e["file"]:
            S["data"].save_reconstruction(S["recs"])
        o = stats.processing_statistics(S["data"], S["recs"])
        T = o["steps_times"]
        e["times"] = [q(T[k], 1000) for k in ("Feature Extraction", "Features Matching", "Tracks Merging", "Reconstruction")]
        e["wanttimes"] = want
        e["total"] = q(T["Total Time"], 1000)
        e["area"] = q(o["area"], 64)
        e["date"] = int(o["date"] != "unknown")
    case("proc", fn, recs=public(S))


def feat(S):
    def fn(e):
        o = stats.features_statistics(S["data"], S["tm"], S["recs"])
        e["det"] = [o["detected_features"][k] for k in ("min", "max", "mean", "median")]
        e["rec"] = [o["reconstructed_features"][k] for k in ("min", "max", "mean", "median")]
    case("feat", fn, wantdet=S["det"], wantrec=[v for m in S["meta"] for v in m["per"]])


def vals(d):
    return sorted([k, q(float(v))] for k, v in d.items())


NAMES = {"perspective": ["focal", "k1", "k2"], "brown": ["focal", "aspect_ratio", "cx", "cy", "k1", "k2", "k3", "p1", "p2"], "fisheye": ["focal", "k1", "k2"]}


def camvals(c):
    at = lambda n: c.principal_point[0] if n == "cx" else c.principal_point[1] if n == "cy" else getattr(c, n)
    return sorted([n, q(float(at(n)))] for n in NAMES[c.projection_type])


def posevals(rot, tr):
    return [[k, q(float(v))] for k, v in zip("abcdef", list(rot) + list(tr))]


def cams(S):
    def fn(e):
        got = stats.cameras_statistics(S["data"], S["recs"])
        b = lambda x: [q(float(v)) for v in list(x["rotation"]) + list(x["translation"]) + [x["scale"]]]
        e["got"] = [[c, vals(v["initial_values"]), vals(v["optimized_values"]), b(v["bias"])] for c, v in got.items()]
        e["initial"] = [[c, camvals(v)] for c, v in S["initial"].items()]
        e["recs"] = [dict(size=m["size"], cams=[[i, camvals(c), [q(float(v)) for v in list(s.rotation) + list(s.translation) + [s.scale]]] for i, c, s in m["cams"]]) for m in S["meta"]]
    case("cams", fn, what="cameras")

    def rig(e):
        got = stats.rig_statistics(S["data"], S["recs"])
        pv = lambda d: posevals(d["rotation"], d["translation"])
        e["got"] = [[c, pv(v["initial_values"]), pv(v["optimized_values"]), []] for c, v in got.items()]
        e["initial"] = [[c, posevals(v.pose.rotation, v.pose.translation)] for c, v in S["rigs0"].items()]
        e["recs"] = [dict(size=m["size"], cams=[[i, posevals(c.pose.rotation, c.pose.translation), []] for i, c in m["rigs"]]) for m in S["meta"]]
    case("cams", rig, what="rig cameras")


def errors(S):
    for what, fn_ in (("GPS errors", lambda: stats.gps_errors(S["recs"])), ("control point errors", lambda: stats.gcp_errors(S["data"], S["recs"]))):
        def fn(e):
            o = fn_()
            e["got"] = [[q(o[k][a], 1000) for a in "xyz"] for k in ("mean", "std", "error")] + [q(o["average_error"], 1000)] if o else []
        case("errors", fn, what=what, errs=S["gcperr"] if what[0] == "c" else [x for m in S["meta"] for x in m.get("gpserr", [])])


def files(S):
    def fn(e):
        data = S["data"]
        data.save_tracks_manager(S["tm"])
        for r in S["recs"]:
            for p in r.points.values():
                p.reprojection_errors = {}
        data.save_reconstruction(S["recs"])
        maxpts = R.choice([-1, 3])
        kept = [len(r.points) for r in S["recs"]]
        want = stats.compute_all_statistics(data, data.load_tracks_manager(), data.load_reconstruction())
        compute_statistics.run_dataset(data, maxpts)
        e["files"] = sorted(os.listdir(S["path"] + "/stats"))
        used = sorted({c for m in S["meta"] for c, _, _ in m["cams"]})
        e["want"] = ["stats.json", "matchgraph.png", "topview.png", "residual_histogram.png"] + ["heatmap_%s.png" % c for c in used] + ["residuals_%s.png" % c for c in sorted(S.get("resid", []))]
        a = json.load(open(S["path"] + "/stats/stats.json"))
        e["same"] = int(a == json.loads(json.dumps(want)))
        e["maxpts"] = max(1, R.choice([1, 3, 10, 100] + 4 * [len(r.points) - R.randrange(1, 4) for r in S["recs"]]))
        e["decimated"] = []
        before = [set(r.points.keys()) for r in S["recs"]]
        stats.decimate_points(S["recs"], e["maxpts"])
        for b, r in zip(before, S["recs"]):
            e["decimated"].append([len(b), len(r.points), int(set(r.points.keys()) <= b)])
    case("files", fn)


n = 0
for b in inp["hist"]:
    S = scene(n, lens=b["recs"])
    recon(S)
    proc(S)
    shutil.rmtree(S["path"], ignore_errors=True)
    n += 1
for _ in range(inp["rand"]):
    S = scene(n)
    for f in (recon, proc, feat, cams, errors):
        f(S)
    shutil.rmtree(S["path"], ignore_errors=True)
    n += 1
for _ in range(inp["plot"]):
    S = scene(n, plot=True)
    files(S)
    shutil.rmtree(S["path"], ignore_errors=True)
    n += 1
save_output(dict(cases=cases))
