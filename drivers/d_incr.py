"""Incremental reconstruction, candidate pairs, resection, priors and point filters."""
import math
import os
import shutil
import cv2
import numpy as np
from vcommon import *
from recval import make_camera
from opensfm import config as cfgm, geo, geometry, pygeometry, pymap, pysfm, reconstruction as orec, tracking, types
from opensfm.dataset import DataSet

cv2.setNumThreads(1)
inp = load_input()
REF = geo.TopocentricConverter(43., 11., 0.)


def case(out, op, fn, **k):
    e = dict(op=op, exc="")
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    out.append(e)
    return e


def vec(v):
    return [q(float(x)) for x in np.ravel(v)]


def rows(A):
    return [vec(r) for r in np.asarray(A)]


def obstok(o):
    return ",".join(tok(x) for x in list(o.point) + [o.scale]) + "|" + str([int(c) for c in o.color]) + "|%d" % o.id


def lookat(o, target, roll):
    z = target - o
    z = z / np.linalg.norm(z)
    x = np.cross(z, [0, 0, 1.])
    x /= np.linalg.norm(x)
    W = np.array([x, np.cross(z, x), z])
    return cv2.Rodrigues(np.array([0, 0, roll]))[0] @ W


def mkdata(path, exif, cams, cfg, rigcams=None, assign=None):
    os.makedirs(path + "/images")
    for im in exif:
        open(path + "/images/" + im, "w").close()
    if not any("." in im for im in exif):
        open(path + "/images/none.jpg", "w").close()
    data = DataSet(path)
    data.config.update(cfg)
    for im, x in exif.items():
        data.save_exif(im, x)
    data.save_camera_models(cams)
    if rigcams:
        data.save_rig_cameras(rigcams)
        data.save_rig_assignments(assign)
    return data


def simple_camera(R, cid, types_=("perspective", "perspective", "brown", "fisheye", "spherical")):
    cam = make_camera(R, cid, R.choice(types_))
    if cam.projection_type != "spherical":
        cam.focal = R.uniform(.7, 1.)
    return cam


def see(cam, pose, X):
    b = pose.transform(X)
    if cam.projection_type != "spherical" and b[2] < .3 * np.linalg.norm(b):
        return None
    p = cam.project(b)
    if cam.projection_type != "spherical" and np.abs(p).max() > .5:
        return None
    if np.linalg.norm(cam.pixel_bearing(p) - b / np.linalg.norm(b)) > 1e-7:
        return None
    return p


def exif_of(cam, origin=None, ref=REF):
    x = {"camera": cam.id, "width": cam.width, "height": cam.height, "make": "a", "model": "b", "projection_type": cam.projection_type, "orientation": 1, "capture_time": 1.}
    if origin is not None:
        la, lo, al = ref.to_lla(*origin)
        x["gps"] = {"latitude": la, "longitude": lo, "altitude": al, "dop": 5.}
    return x


def similarity(A, B):
    """(s, R, t) with s R a + t ~ b"""
    A, B = np.asarray(A), np.asarray(B)
    ma, mb = A.mean(0), B.mean(0)
    U, S, V = np.linalg.svd((B - mb).T @ (A - ma))
    D = np.diag([1, 1, np.sign(np.linalg.det(U) * np.linalg.det(V))])
    Rm = U @ D @ V
    s = np.trace(np.diag(S) @ D) / max(1e-12, ((A - ma) ** 2).sum())
    return s, Rm, mb - s * Rm @ ma


def scene(R, n):
    """A dataset on disk with its tracks and its truth."""
    S = {}
    mode = R.choice(["exact", "exact", "noise", "outlier"])
    multi = R.random() < .5
    rig = R.random() < .4
    ncl = R.choice([2, 2, 3]) if multi else 1
    gps = R.choice(["no", "no", "exact", "noise"])
    cams = {}
    for k in range(R.choice([1, 1, 2])):
        c = simple_camera(R, "cam%d" % k)
        cams[c.id] = c
    names = ["%s%02d.jpg" % (R.choice("abc"), k) for k in range(40)]
    R.shuffle(names)
    rigcams = assign = None
    rel = {}
    if rig:
        rel = {"front": pygeometry.Pose(), "side": pygeometry.Pose(np.array([R.gauss(0, .05) for _ in range(3)]), np.array([R.uniform(1, 1.6) * R.choice([-1, 1]), R.gauss(0, .1), R.gauss(0, .1)]))}
        rigcams = {k: pymap.RigCamera(p, k) for k, p in rel.items()}
        assign = {}
    poses, camof, clof, exif = {}, {}, {}, {}
    points = []
    tm = pymap.TracksManager()
    tracks = {}
    full = ncl == 1
    for c in range(ncl):
        center = np.array([60. * c, 0, 0])
        ni = R.choice([2, 3, 3, 4, 5]) if not rig else R.choice([1, 2, 2])
        a = R.uniform(0, 6)
        ims = []
        for k in range(ni):
            o = center + 9 * np.array([math.cos(a), math.sin(a), R.uniform(-.15, .15)])
            a += R.uniform(.18, .3)
            W = lookat(o, center + np.array([R.uniform(-.3, .3) for _ in range(3)]), R.uniform(-.2, .2))
            pose = pygeometry.Pose(cv2.Rodrigues(W)[0].ravel(), -W @ o)
            if not rig:
                ims.append((names.pop(), pose, R.choice(sorted(cams))))
            else:
                inst = "inst%d_%d" % (c, k)
                assign[inst] = []
                order = ["front", "side"]
                R.shuffle(order)
                for rc in order:
                    im = names.pop()
                    assign[inst].append((im, rc))
                    ims.append((im, rel[rc].compose(pose), sorted(cams)[0]))
        for im, pose, cid in ims:
            poses[im], camof[im], clof[im] = pose, cid, c
        P = [center + np.array([R.uniform(-2.5, 2.5) for _ in range(3)]) for _ in range(R.choice([90, 110, 130]))]
        p_see = 1. if R.random() < .5 else .85
        for X in P:
            t = "%d" % (len(points) + 100)
            points.append(X)
            for im, pose, cid in ims:
                if R.random() > p_see:
                    continue
                p = see(cams[cid], pose, X)
                if p is None:
                    continue
                if mode == "noise":
                    p = p + np.array([R.gauss(0, 3e-4), R.gauss(0, 3e-4)])
                elif mode == "outlier" and R.random() < .06:
                    p = p + np.array([R.choice([-1, 1]) * R.uniform(.01, .2), R.gauss(0, .05)])
                tracks.setdefault(t, {})[im] = p
    for k in range(R.choice([0, 0, 1, 2])):  # images with too few tracks
        im = names.pop()
        camof[im], clof[im] = sorted(cams)[0], -1
        poses[im] = pygeometry.Pose()
        for t in R.sample(sorted(tracks), R.choice([1, 4, 30, 80])):
            tracks[t][im] = np.array([R.uniform(-.4, .4), R.uniform(-.4, .4)])
        full = False
    if rig and R.random() < .25:  # one camera of an instance has no tracks
        im = R.choice(sorted(camof))
        for t in tracks:
            tracks[t].pop(im, None)
        full = False
    if not rig and R.random() < .2:  # an image that shares points with a single other one
        c = R.randrange(ncl)
        a = R.choice([im for im in sorted(clof) if clof[im] == c])
        im = names.pop()
        center = np.array([60. * c, 0, 0])
        o = poses[a].get_origin() - center
        o = center + cv2.Rodrigues(np.array([0, 0, R.choice([-1, 1]) * R.uniform(.2, .3)]))[0] @ o
        W = lookat(o, center, R.uniform(-.2, .2))
        poses[im], camof[im], clof[im] = pygeometry.Pose(cv2.Rodrigues(W)[0].ravel(), -W @ o), camof[a], c
        for _ in range(R.choice([55, 70, 90])):
            X = center + np.array([R.uniform(-2.5, 2.5) for _ in range(3)])
            o2 = {x: see(cams[camof[x]], poses[x], X) for x in (a, im)}
            if None not in [None if v is None else 1 for v in o2.values()]:
                tracks["%d" % (len(points) + 100)] = o2
            points.append(X)
        full = False
    fid = {}
    for t in R.sample(sorted(tracks), len(tracks)):
        col = [R.randrange(256) for _ in range(3)]
        for im in R.sample(sorted(tracks[t]), len(tracks[t])):
            fid[im] = fid.get(im, 0) + 1
            p = tracks[t][im]
            tm.add_observation(im, t, pymap.Observation(p[0], p[1], .004, *([col[0], R.randrange(256), col[2]] + [fid[im]])))
    for im in camof:
        o = poses[im].get_origin() if clof[im] >= 0 else None
        if gps == "no":
            o = None
        elif o is not None and gps == "noise":
            o = o + np.array([R.gauss(0, .3) for _ in range(3)])
        exif[im] = exif_of(cams[camof[im]], o)
    cfg = dict(processes=R.choice([1, 2]), align_method="naive" if mode == "exact" or R.random() < .5 else "auto", align_orientation_prior=R.choice(["horizontal", "vertical"]),
               bundle_interval=R.choice([1, 2, 999999]), local_bundle_radius=R.choice([0, 3]), retriangulation=R.random() < .7, triangulation_type=R.choice(["FULL", "ROBUST"]),
               filter_final_point_cloud=R.random() < .25, optimize_camera_parameters=R.random() < .5, bundle_use_gps=True, bundle_outlier_fixed_threshold=R.choice([.006, .004]),
               five_point_refine_rec_iterations=50, resection_min_inliers=R.choice([10, 10, 15]), retriangulation_ratio=R.choice([1.2, 1.01]), bundle_new_points_ratio=R.choice([1.2, 1.01]))
    path = os.path.join(SCRATCH, "inc%d" % n)
    data = mkdata(path, exif, cams, cfg, rigcams, assign)
    return dict(data=data, tm=tm, path=path, poses=poses, camof=camof, cams=cams, mode=mode, gps=gps, full=full, points=points, assign=assign, rel=rel, cfg=cfg, tracks=tracks, clof=clof)


def rec_event(S, rec, e):
    """One returned reconstruction."""
    tm, thr = S["tm"], S["cfg"]["bundle_outlier_fixed_threshold"]
    e["shots"] = sorted(rec.shots.keys())
    e["missing_camera"] = [s for s in rec.shots.keys() if rec.shots[s].camera.id not in rec.cameras or rec.shots[s].camera.id != S["camof"][s]]
    ass = {im: (inst, rc) for inst, l in (S["assign"] or {}).items() for im, rc in l}
    e["rig"] = [[s, rec.shots[s].rig_instance_id, rec.shots[s].rig_camera_id] + list(ass.get(s, (s, rec.shots[s].camera.id))) for s in sorted(rec.shots.keys())]
    allshots = set(tm.get_shot_ids())
    pts = []
    worst, single = 0, []
    alltracks = set(tm.get_track_ids())
    for pid, p in rec.points.items():
        obs = p.get_observations()
        if pid not in alltracks:
            pts.append([pid, "no such track"])
            continue
        tro = tm.get_track_observations(pid)
        mine = {}
        for shot in obs.keys():
            mine[shot.id] = shot.get_observation(obs[shot])
        bad = [s for s in mine if s not in tro or obstok(tro[s]) != obstok(mine[s])]
        if bad:
            pts.append([pid, "observation differs from the track's"])
        if len(mine) < 2:
            pts.append([pid, "fewer than two observations"])
        if list(map(int, p.color)) not in [[int(c) for c in o.color] for o in tro.values()]:
            pts.append([pid, "colour of no observation"])
        X = p.coordinates
        for s, o in mine.items():
            shot = rec.shots[s]
            if shot.camera.projection_type == "spherical":
                b = shot.pose.transform(X)
                err = np.linalg.norm(shot.camera.pixel_bearing(o.point) - b / np.linalg.norm(b))
            else:
                err = np.linalg.norm(shot.project(X) - o.point)
            worst = max(worst, float(err))
    e["bad"], e["worst"], e["thr"], e["npoints"] = pts[:5], q(worst), q(thr), len(rec.points)


def incr(k, _):
    out = []
    R = rng("incr%d" % k)
    S = scene(R, k)
    data, tm, cfg = S["data"], S["tm"], S["cfg"]
    ims = sorted(tm.get_shot_ids())
    mates = {im: [im] for im in ims}
    for l in (S["assign"] or {}).values():
        for im, _ in l:
            mates[im] = sorted(x for x, _ in l)

    def run(e):
        pairs = orec.compute_image_pairs_sequential(data, tm) if cfg["processes"] == 1 else orec.compute_image_pairs(tracking.all_common_tracks_with_features(tm), data)
        e["images"], e["pairs"], e["mates"] = ims, [list(p) for p in pairs], [[im, mates[im]] for im in ims]
        e["common"] = [sum(1 for t in S["tracks"].values() if a in t and b in t) for a, b in pairs]
        e["min_inliers"] = cfg["resection_min_inliers"]
        report, recs = orec.incremental_reconstruction(data, tm)
        S["recs"] = recs
        e["candidates"] = report["num_candidate_image_pairs"]
        e["left"] = sorted(report["not_reconstructed_images"])
        e["recs"] = [sorted(r.shots.keys()) for r in recs]
        e["behind"] = []  # images left with many clean points of a reconstruction
        if S["mode"] == "exact":
            for im in e["left"]:
                n_ = max([sum(1 for t in r.points.keys() if im in S["tracks"][t]) for r in recs] or [0]) if S["clof"][im] >= 0 else 0
                e["behind"].append([im, n_])
        e["tries"] = []
        for r in report["reconstructions"]:
            b = r["bootstrap"]
            t = dict(pair=list(b["image_pair"]), common=b["common_tracks"], ok=int("grow" in r), steps=[])
            for s in r.get("grow", {}).get("steps", []):
                t["steps"].append(dict(images=sorted(s["images"]), shots=sorted(s["resection"]["shots"]), common=s["resection"]["num_common_points"], inliers=s["resection"]["num_inliers"]))
            e["tries"].append(t)
    e = case(out, "run", run, mode=S["mode"], gps=S["gps"], rig=int(bool(S["assign"])), cfg=str(S["cfg"]), whole=int(S["mode"] == "exact" and S["full"] and not S["assign"]))
    recs = S.get("recs", [])
    for r in recs:
        case(out, "rec", lambda e: rec_event(S, r, e), mode=S["mode"])
    if S["mode"] == "exact" and recs and not S["assign"]:  # the scale of a pair of rig instances is only found by adjustment
        for r in recs:
            if len(r.points) < 20 or any(S["clof"][s] < 0 for s in r.shots.keys()) or len({S["clof"][s] for s in r.shots.keys()}) > 1:
                continue
            def truth(e):
                shots = sorted(r.shots.keys())
                pts = sorted(r.points.keys())
                A = [r.shots[s].pose.get_origin() for s in shots] + [r.points[p].coordinates for p in pts]
                ref = data.load_reference()
                tr = (lambda x: np.asarray(x) if S["gps"] == "no" else np.array(ref.to_topocentric(*REF.to_lla(*x))))
                B = [tr(S["poses"][s].get_origin()) for s in shots] + [tr(S["points"][int(p) - 100]) for p in pts]
                c0 = np.mean(B, axis=0)
                fixed = S["gps"] == "exact" and len(shots) >= 3
                s_, Rm, t_ = similarity(A, B)
                e["fixed"] = int(fixed)
                shift = np.zeros(3) if fixed else c0
                e["sim"] = [q(s_), rows(Rm), vec(t_ - shift)]
                sel = list(range(len(shots))) + list(range(len(shots), len(A), max(1, len(pts) // 12)))
                e["got"], e["want"] = rows([A[i] for i in sel]), rows([B[i] - shift for i in sel])
                e["sane"] = int(np.abs(e["got"]).max() < 1500e6 and s_ < 500)
                e["dirs"] = [[vec(r.shots[s].pose.get_R_cam_to_world()[:, 2]), vec(S["poses"][s].get_R_cam_to_world()[:, 2])] for s in shots]
                e["npoints"], e["nshots"] = len(pts), len(shots)
            case(out, "truth", truth, mode=S["mode"], gps=S["gps"])
    # the poses of a reconstruction as a prior
    if recs and R.random() < .6:
        prior = recs[0]
        if len(recs[0].shots) > 2 and R.random() < .5 and not S["assign"]:
            prior.remove_shot(R.choice(sorted(prior.shots.keys())))

        def fromprior(e):
            def ph(r):
                return sorted([s, ",".join(tok(round(float(x), 9) + 0.) for x in np.ravel(r.shots[s].pose.get_cam_to_world())), r.shots[s].rig_instance_id, r.shots[s].rig_camera_id, r.shots[s].camera.id] for s in r.shots.keys())

            def ch(r):
                return sorted([c, r.cameras[c].projection_type, ",".join(tok(x) for x in r.cameras[c].get_parameters_values())] for c in r.cameras.keys())
            e["before"], e["cams0"] = ph(prior), ch(prior)
            report, r = orec.reconstruct_from_prior(data, tm, prior)
            e["after"], e["cams1"] = ph(r), ch(r)
            e["left"] = sorted(report["not_reconstructed_images"])
            e["images"] = ims
            e["counts"] = [report["retriangulate"][0]["num_prior_images"], report["retriangulate"][0]["num_remaining_images"]]
            e["ref"] = [tok(x) for x in (prior.reference.lat, prior.reference.lon, prior.reference.alt, r.reference.lat, r.reference.lon, r.reference.alt)]
            rec_event(S, r, e)
            e["clear"] = int(S["mode"] == "exact" and not S["assign"])
            # tracks seen by two images of the prior, at a clear angle
            must = []
            for t, o in S["tracks"].items():
                s = [x for x in o if x in prior.shots]
                if len(s) >= 2 and t in prior.points:
                    X = prior.points[t].coordinates
                    rays = [X - prior.shots[x].pose.get_origin() for x in s]
                    rays = [v / np.linalg.norm(v) for v in rays]
                    if max(math.degrees(math.acos(max(-1, min(1, float(a @ b))))) for a in rays for b in rays) > 3:
                        must.append(t)
            e["must"] = len(must)
            e["got"] = len([t for t in must if t in r.points])
        case(out, "prior", fromprior, mode=S["mode"])
    shutil.rmtree(S["path"], ignore_errors=True)
    return [dict(kind="run", events=out)]


def pairs(k, _):
    out = []
    R = rng("pairs%d" % k)
    n = R.randrange(3, 6)
    cams = {"c": simple_camera(R, "c")}
    cam = cams["c"]
    ims = ["im%d" % i for i in range(n)]
    rot = {im: cv2.Rodrigues(np.array([R.gauss(0, .06) for _ in range(3)]))[0] for im in ims}
    tm = pymap.TracksManager()
    want = []
    wob = R.choice([0., .003, .006])
    t = 0
    left = {im: im for im in ims}
    # every pair has tracks of its own: k rotate with the images, m do not
    for i in range(n):
        for j in range(i + 1, n):
            if R.random() < .2:
                continue
            common = R.choice([48, 49, 50, 51, 60, 80])
            outl = R.choice([0, int(common * .3) - 3, int(common * .3) + 3, common // 2, int(common * .6)])
            done = o = 0
            rel = rot[ims[j]] @ rot[ims[i]].T
            while done < common:
                p = np.array([R.uniform(-.3, .3), R.uniform(-.3, .3)])
                b = cam.pixel_bearing(p)
                b2 = rel @ b
                if o < outl:
                    b2 = b2 + np.array([R.uniform(-.3, .3) for _ in range(3)])
                    b2 /= np.linalg.norm(b2)
                    if np.linalg.norm(b2 - rel @ b) < .12:
                        continue
                else:
                    b2 = b2 + np.array([R.uniform(-wob, wob) for _ in range(3)])
                    b2 /= np.linalg.norm(b2)
                p2 = cam.project(b2)
                if np.linalg.norm(cam.pixel_bearing(p2) - b2) > 1e-7 or (cam.projection_type != "spherical" and b2[2] < .5):
                    continue
                if o < outl:
                    o += 1
                done += 1
                t += 1
                for im, x in ((ims[i], p), (ims[j], p2)):
                    tm.add_observation(im, str(t), pymap.Observation(x[0], x[1], .004, 1, 2, 3, t))
            want.append([ims[i], ims[j], common, outl])
    path = os.path.join(SCRATCH, "pairs%d" % k)
    data = mkdata(path, {im: exif_of(cam) for im in ims}, cams, dict(processes=R.choice([1, 2, 4])))

    def fn(e):
        e["want"] = want
        e["seq"] = [list(p) for p in orec.compute_image_pairs_sequential(data, tm)]
        e["par"] = [list(p) for p in orec.compute_image_pairs(tracking.all_common_tracks_with_features(tm), data)]
    case(out, "pairs", fn)

    def score(e):
        e["rows"] = []
        for _ in range(12):
            n = R.choice([10, 50, 60, 100, R.randrange(1, 300)])
            o = R.choice([min(n, max(0, n * 3 // 10 + R.choice([-1, 0, 1]))), R.randrange(0, n + 1), 0, n])
            e["rows"].append([n, o, q(orec.pairwise_reconstructability(n, n - o), 1)])
    case(out, "score", score)
    shutil.rmtree(path, ignore_errors=True)
    return [dict(kind="pairs", events=out)]


def resect(k, _):
    out = []
    R = rng("resect%d" % k)
    rig = R.random() < .35
    cam = simple_camera(R, "c")
    path = os.path.join(SCRATCH, "res%d" % k)
    rel = {"front": pygeometry.Pose(), "side": pygeometry.Pose(np.array([R.gauss(0, .1) for _ in range(3)]), np.array([R.gauss(0, 1.) for _ in range(3)]))}
    inst = [("new", "front"), ("mate", "side")]
    R.shuffle(inst)
    if R.random() < .5:
        inst = [(im, {"front": "side", "side": "front"}[rc]) for im, rc in inst]
    ims = ["old1", "old2", "new", "mate", "other"]
    min_inl = R.choice([5, 8, 10, 12, 20])
    data = mkdata(path, {im: exif_of(cam, np.array([1., 2, 3]) if R.random() < .5 else None) for im in ims}, {"c": cam}, dict(resection_min_inliers=min_inl),
                  {a: pymap.RigCamera(p, a) for a, p in rel.items()} if rig else None, {"I": inst} if rig else None)
    data.save_reference(REF)
    rec = types.Reconstruction()
    rec.reference = REF
    rec.cameras = data.load_camera_models()
    rec.rig_cameras = data.load_rig_cameras()
    rc = dict(inst)["new"]
    tm = pymap.TracksManager()
    truth = pygeometry.Pose(np.array([R.gauss(0, .6) for _ in range(3)]), np.array([R.uniform(-3, 3) for _ in range(3)]))
    thr = R.choice([.004, .01])
    nin = R.choice([0, 3, 4, 5, 7, 9, 10, 12, 20, 40])
    nout = R.choice([0, 0, 1, 3, max(0, nin // 4)])
    npts = 0
    ids = []
    old = {s: pygeometry.Pose(np.array([R.gauss(0, .3) for _ in range(3)]), np.array([R.uniform(-1, 1) for _ in range(3)])) for s in ("old1", "old2")}
    for s in ("old1", "old2"):
        rec.create_shot(s, "c", old[s])
    label = {}
    plan = ["in"] * nin + ["out"] * nout
    R.shuffle(plan)
    for what in plan:
        while True:
            p = np.array([R.uniform(-.4, .4), R.uniform(-.4, .4)])
            b = cam.pixel_bearing(p)
            if np.linalg.norm(cam.project(b) - p) < 1e-7:
                break
        X = truth.inverse().transform(b * R.uniform(3, 12))
        if what == "out":
            d = np.array([R.gauss(0, 1) for _ in range(3)])
            X = X + 3 * d / np.linalg.norm(d)
            bb = truth.transform(X)
            if np.linalg.norm(bb / np.linalg.norm(bb) - b) < .08:
                continue
        t = "t%d" % len(label)
        label[t] = what
        rec.create_point(t, X)
        tm.add_observation("new", t, pymap.Observation(p[0], p[1], .004, 1, 2, 3, len(label)))
        tm.add_observation("old1", t, pymap.Observation(.1, .1, .004, 1, 2, 3, len(label)))
        if R.random() < .5:
            tm.add_observation("mate", t, pymap.Observation(.1, .1, .004, 1, 2, 3, len(label)))
    for j in range(R.choice([1, 3])):  # tracks that are not reconstructed
        tm.add_observation("new", "u%d" % j, pymap.Observation(.01 * j, .2, .004, 1, 2, 3, 500 + j))
    for s in ("mate", "other"):
        for j in range(3):
            tm.add_observation(s, "z%d" % j, pymap.Observation(.01 * j, .2, .004, 1, 2, 3, 500 + j))

    def cand(e):
        sub = R.sample(ims, R.randrange(1, 6))
        sub = [s for s in sub if s in set(tm.get_shot_ids()) or s in rec.shots]
        e["got"] = [[s, int(c)] for s, c in orec.reconstructed_points_for_images(tm, rec, set(sub))]
        e["want"] = []
        for s in sub:
            if s not in rec.shots:
                obs = tm.get_shot_observations(s)
                e["want"].append([s, len([t for t in obs if t in label])])
    case(out, "candidates", cand)

    def fn(e):
        nin_, nout_ = [len([1 for v in label.values() if v == w]) for w in ("in", "out")]
        e["plan"] = [nin_, nout_, min_inl]
        before = sorted(rec.shots.keys())
        ok, new, rep = orec.resect(data, tm, rec, "new", thr, min_inl)
        e["ok"], e["new"], e["want_new"] = int(ok), sorted(new), ["mate", "new"] if rig else ["new"]
        e["added"] = sorted(set(rec.shots.keys()) - set(before))
        e["common"] = rep["num_common_points"]
        e["inliers"] = rep.get("num_inliers", -1)
        e["shots"] = sorted(rep.get("shots", []))
        e["obs"] = sorted([t, label.get(t, "none")] for t in label if rec.points[t].get_observations() and any(s.id == "new" for s in rec.points[t].get_observations().keys()))
        e["obs"] = [x[1] for x in e["obs"]]
        e["matein"] = 0
        if ok:
            s = rec.shots["new"]
            tests = [np.array([R.uniform(-2, 2) for _ in range(3)]) for _ in range(3)]
            if min(nin_, 12) == 12:
                e["pose"] = [[vec(s.pose.transform(x)), vec(truth.transform(x))] for x in tests]
                if rig:
                    other = dict(inst)["mate"]
                    want = rel[other].compose(rel[rc].inverse()).compose(truth)
                    e["pose"] += [[vec(rec.shots["mate"].pose.transform(x)), vec(want.transform(x))] for x in tests]
            if rig:
                e["rig"] = [s.rig_instance_id, s.rig_camera_id, rec.shots["mate"].rig_instance_id, rec.shots["mate"].rig_camera_id, "I", rc, "I", dict(inst)["mate"]]
    case(out, "resect", fn, pose=[], rig=[], thr=q(thr))
    shutil.rmtree(path, ignore_errors=True)
    return [dict(kind="resect", events=out)]


def clock(k, tr):
    """Replays one behaviour of BundleClock."""
    out = []

    class D:
        config = dict(bundle_interval=tr["interval"], bundle_new_points_ratio=tr["ratio"] / 10., retriangulation=bool(tr["active"]), retriangulation_ratio=tr["rratio"] / 10.)
    rec = types.Reconstruction()
    rec.add_camera(pygeometry.Camera.create_spherical())
    cid = next(iter(rec.cameras.keys()))
    n = [0, 0]

    def pts(d):
        for _ in range(d):
            rec.create_point("p%d" % n[0], np.array([0., 0, 0]))
            n[0] += 1
        for _ in range(-d):
            rec.remove_point(sorted(rec.points.keys())[0])

    def shots(d):
        for _ in range(d):
            rec.create_shot("s%d" % n[1], cid)
            n[1] += 1
    pts(tr["p0"])
    shots(tr["s0"])
    sb, sr = orec.ShouldBundle(D, rec), orec.ShouldRetriangulate(D, rec)
    for a in tr["acts"]:
        def fn(e):
            if a[0] == "points":
                pts(a[1])
            elif a[0] == "shots":
                shots(a[1])
            elif a[0] == "bundled":
                sb.done()
            elif a[0] == "retri":
                sr.done()
                sb.done()
            e["bundle"], e["retri"] = int(bool(sb.should())), int(bool(sr.should()))
            e["want"] = a[2:]
        case(out, "clock", fn, act=a[0])
    return [dict(kind="clock", events=out)]


def invcov_cond(shots, X):
    A = np.zeros((3, 3))
    for s in shots:
        J = np.zeros((2, 3))
        h = 1e-5
        for j in range(3):
            d = np.zeros(3)
            d[j] = h
            J[:, j] = (s.project(X + d) - s.project(X - d)) / (2 * h)
        A += J.T @ J
    w = np.linalg.eigvalsh(A)
    return float(np.linalg.det(A)), (math.sqrt(w[-1] / w[0]) if w[0] > 0 else 1e9)


def filters(k, _):
    out = []
    R = rng("filters%d" % k)
    # isolated points: small integer coordinates
    n = R.choice([3, 7, 8, 9, 12, 16, 20])
    kk = R.choice([7, 7, 3, 5])
    rec = types.Reconstruction()
    P = []
    for j in range(n):
        s = R.choice([2, 2, 3, 8]) if j else 2
        P.append([R.randrange(-s, s + 1) for _ in range(3)])
        rec.create_point("p%d" % j, np.array(P[-1], float))

    def iso(e):
        e["removed"] = int(pysfm.remove_isolated_points(rec.map, kk))
        e["kept"] = sorted(int(x[1:]) for x in rec.points.keys())
    case(out, "isolated", iso, pts=P, k=kk)
    # badly conditioned points
    rec2 = types.Reconstruction()
    cam = make_camera(R, "c", R.choice(["perspective", "perspective", "brown"]))
    rec2.add_camera(cam)
    ns = R.randrange(2, 5)
    shots = []
    for j in range(ns):
        o = np.array([R.uniform(-2, 2), R.uniform(-.5, .5), R.uniform(-.5, .5)])
        r = np.array([R.gauss(0, .05) for _ in range(3)])
        shots.append(rec2.create_shot("s%d" % j, "c", pygeometry.Pose(r, -cv2.Rodrigues(r)[0] @ o)))
    amin = R.choice([1., 2., 5.])
    info = []
    for j in range(R.randrange(3, 14)):
        X = np.array([R.uniform(-1, 1), R.uniform(-1, 1), R.choice([6., 12., 20., 60., 200.]) * R.uniform(.8, 1.2)])
        see_ = R.sample(shots, R.randrange(1, ns + 1))
        p = rec2.create_point("q%d" % j, X)
        for s in see_:
            u = s.project(X)
            rec2.add_observation(s.id, "q%d" % j, pymap.Observation(u[0], u[1], .004, 1, 2, 3, j))
        rays = [(X - s.pose.get_origin()) / np.linalg.norm(X - s.pose.get_origin()) for s in see_]
        ang = max([math.degrees(math.acos(min(1., float(a @ b)))) for x, a in enumerate(rays) for b in rays[x + 1:]] or [0.])
        det, cond = invcov_cond(see_, X)
        info.append([j, q(ang), q(cond) if abs(det) > 1e-14 else -1, q(min(cond, 1000.))])

    def bad(e):
        e["removed"] = int(pysfm.filter_badly_conditioned_points(rec2.map, amin))
        e["kept"] = sorted(int(x[1:]) for x in rec2.points.keys())
    case(out, "conditioned", bad, pts=info, angle=q(amin))
    # counting and editing the tracks of a shot
    tm = pymap.TracksManager()
    T = {}
    for s in ("a", "b", "c"):
        for t in R.sample(range(8), R.randrange(1, 8)):
            tm.add_observation(s, "t%d" % t, pymap.Observation(.1, .2, .004, 1, 2, 3, t))
            T.setdefault(s, set()).add(t)
    sub = R.sample(range(10), R.randrange(0, 10))

    def counts(e):
        ask = R.sample(["a", "b", "c"], R.randrange(1, 4))
        got = pysfm.count_tracks_per_shot(tm, ask, ["t%d" % t for t in sub])
        e["got"] = sorted([s, int(c)] for s, c in got.items())
        e["have"] = sorted([s, sorted(T[s])] for s in ask)
    case(out, "counts", counts, tracks=sorted(sub))

    def conn(e):
        s = R.choice(["a", "b", "c"])
        add = R.sample(range(8, 14), R.randrange(0, 4))
        rem = R.sample(sorted(T[s]), R.randrange(0, len(T[s]) + 1))
        pysfm.add_connections(tm, s, ["t%d" % t for t in add])
        if rem:
            pysfm.remove_connections(tm, s, ["t%d" % t for t in rem])
        e["before"], e["shot"], e["add"], e["rem"] = sorted([x, sorted(v)] for x, v in T.items()), s, sorted(add), sorted(rem)
        e["after"] = sorted([x, sorted(int(t[1:]) for t in tm.get_shot_observations(x))] for x in ("a", "b", "c"))
        e["tracks"] = sorted([int(t[1:]), sorted(tm.get_track_observations(t))] for t in tm.get_track_ids() if tm.get_track_observations(t))
    case(out, "connections", conn)
    return [dict(kind="filters", events=out)]


def realign(k, _):
    out = []
    R = rng("realign%d" % k)

    def build(ref, names, withpts):
        rec = types.Reconstruction()
        rec.reference = ref
        for c in ("c0", "c1"):
            cam = pygeometry.Camera.create_perspective(R.uniform(.5, 1.2), R.uniform(-.1, .1), 0.)
            cam.id, cam.width, cam.height = c, 100, 80
            rec.add_camera(cam)
        return rec
    ref1 = geo.TopocentricConverter(R.uniform(-60, 60), R.uniform(-170, 170), R.uniform(0, 50))
    ref2 = ref1 if R.random() < .3 else geo.TopocentricConverter(ref1.lat + R.uniform(-1e-3, 1e-3), ref1.lon + R.uniform(-1e-3, 1e-3), R.uniform(0, 50))
    a, b = build(ref1, None, 0), build(ref2, None, 1)
    rig = R.random() < .4
    for r in (a, b):
        r.add_rig_camera(pymap.RigCamera(pygeometry.Pose(np.array([.1, .2, .3]), np.array([.5, .1, 0])), "r0"))
        r.add_rig_camera(pymap.RigCamera(pygeometry.Pose(np.array([-.1, 0, .2]), np.array([-.5, .1, .2])), "r1"))
    def rp():
        return pygeometry.Pose(np.array([R.gauss(0, .5) for _ in range(3)]), np.array([R.uniform(-9, 9) for _ in range(3)]))
    nshot = R.randrange(1, 5)
    shots = []
    for j in range(nshot):
        ina, inb = R.choice([(1, 1), (1, 1), (1, 1), (0, 1), (1, 0)])
        cid = "c%d" % R.randrange(2)
        ids = ["s%da" % j, "s%db" % j] if rig else ["s%d" % j]
        for r, inside in ((a, ina), (b, inb)):
            if not inside:
                continue
            if rig:
                r.add_rig_instance(pymap.RigInstance("i%d" % j))
                pose = rp()
                for x, s in enumerate(ids):
                    r.create_shot(s, cid, pygeometry.Pose(), "r%d" % x, "i%d" % j)
                r.rig_instances["i%d" % j].pose = pose
            else:
                r.create_shot(ids[0], cid, rp())
            for s in ids:
                r.shots[s].scale = R.choice([0., 1., 2., .5])
                r.shots[s].merge_cc = R.randrange(5)
        shots += [[s, ina, inb] for s in ids]
    inb = [s for s, _, y in shots if y]
    pts = []
    if inb:
        for j in range(6):
            X = np.array([R.uniform(-9, 9) for _ in range(3)])
            b.create_point("p%d" % j, X)
            who = R.sample(inb, R.randrange(0, len(inb) + 1))
            for s in who:
                b.add_observation(s, "p%d" % j, pymap.Observation(.1, .1, .004, 1, 2, 3, j))
            pts.append(("p%d" % j, X, who))

    def fn(e):
        upd = R.random() < .75
        off = np.array(ref2.to_topocentric(*(ref1.lat, ref1.lon, ref1.alt)))
        e["shots"] = shots
        e["points"] = []
        for pid, X, who in pts:
            c = [(float(np.linalg.norm(X - b.shots[s].pose.get_origin())), s) for s in who if s in a.shots]
            c.sort()
            margin = len(c) < 2 or c[1][0] - c[0][0] > 1e-3
            row = [pid, c[0][1] if c else "", int(margin), vec(X), [], []]
            if c:
                row[4] = vec(b.shots[c[0][1]].pose.transform(X))
                row[5] = [q(a.shots[c[0][1]].scale)]
            e["points"].append(row)
        pysfm.realign_maps(a.map, b.map, upd)
        e["update"] = int(upd)
        e["left"] = sorted(b.shots.keys())
        e["poses"] = []
        for s in e["left"]:
            if s not in a.shots:
                continue
            pa, pb = a.shots[s], b.shots[s]
            e["poses"].append([s, vec(pa.pose.get_origin() + off), vec(pb.pose.get_origin()), vec(pa.pose.get_rotation_matrix()), vec(pb.pose.get_rotation_matrix()), [tok(pa.scale), str(pa.merge_cc), ",".join(tok(x) for x in pa.camera.get_parameters_values())], [tok(pb.scale), str(pb.merge_cc), ",".join(tok(x) for x in pb.camera.get_parameters_values())]])
        e["moved"] = []
        for pid, X, who in pts:
            row = next(r for r in e["points"] if r[0] == pid)
            Y = b.points[pid].coordinates if pid in b.points else X
            rel_ = []
            if row[1] and row[1] in b.shots:
                rel_ = vec(b.shots[row[1]].pose.transform(Y))
            e["moved"].append([pid, int(pid in b.points), vec(Y), rel_])
    case(out, "realign", fn)
    return [dict(kind="realign", events=out)]


def triang(k, _):
    """Known poses: triangulation_reconstruction."""
    out = []
    R = rng("triang%d" % k)
    cam = simple_camera(R, "c", ("perspective", "brown", "fisheye"))
    n = R.randrange(3, 6)
    poses, exif = {}, {}
    noisy = R.random() < .4
    for j in range(n):
        o = np.array([j * 2., R.uniform(-1, 1), 20 + R.uniform(-1, 1)])
        W = cv2.Rodrigues(np.array([math.pi + R.uniform(-.15, .15), R.uniform(-.1, .1), R.uniform(-.2, .2)]))[0]
        im = "i%d.jpg" % j
        poses[im] = pygeometry.Pose(cv2.Rodrigues(W)[0].ravel(), -W @ o)
        x = exif_of(cam, o)
        opk = geometry.opk_from_rotation(W)
        x["opk"] = dict(zip(("omega", "phi", "kappa"), (math.degrees(v) + (R.gauss(0, .1) if noisy else 0) for v in opk)))
        exif[im] = x
    path = os.path.join(SCRATCH, "tri%d" % k)
    data = mkdata(path, exif, {"c": cam}, dict(processes=1, align_method="naive", optimize_camera_parameters=False))
    tm = pymap.TracksManager()
    P, tracks = {}, {}
    for j in range(60):
        X = np.array([R.uniform(-4, 12), R.uniform(-6, 6), R.uniform(-2, 3)])
        P[str(100 + j)] = X
        for im in poses:
            p = see(cam, poses[im], X)
            if p is not None:
                tracks.setdefault(str(100 + j), {})[im] = p
                tm.add_observation(im, str(100 + j), pymap.Observation(p[0], p[1], .004, 1, 2, 3, j))
    S = dict(tm=tm, cfg=data.config, camof={im: "c" for im in poses}, assign=None)

    def fn(e):
        report, recs = orec.triangulation_reconstruction(data, tm)
        r = recs[0]
        rec_event(S, r, e)
        ref = data.load_reference()
        tr = (lambda x: np.array(ref.to_topocentric(*REF.to_lla(*x))))
        e["got"] = rows([r.shots[s].pose.get_origin() for s in sorted(poses)] + [r.points[p].coordinates for p in sorted(r.points.keys())][:15])
        e["want"] = rows([tr(poses[s].get_origin()) for s in sorted(poses)] + [tr(P[p]) for p in sorted(r.points.keys())][:15])
        e["dirs"] = [[vec(r.shots[s].pose.get_R_cam_to_world()[:, j]), vec(poses[s].get_R_cam_to_world()[:, j])] for s in sorted(poses) for j in (0, 2)]
        e["images"] = sorted(poses)
        e["all"], e["made"] = len([t for t in tracks.values() if len(t) >= 2]), len(r.points)
    case(out, "triang", fn, noisy=int(noisy))
    shutil.rmtree(path, ignore_errors=True)
    return [dict(kind="triang", events=out)]


JOBS = dict(incr=incr, pairs=pairs, resect=resect, clock=clock, filters=filters, realign=realign, triang=triang)
work = [("incr", i, 0) for i in range(inp["incr"])] + [("triang", i, 0) for i in range(inp["triang"])] + [(w, i, 0) for w in ("pairs", "resect", "filters", "realign") for i in range(inp[w])]
work += [("clock", i, tr) for i, tr in enumerate(inp["clock"])]
res = fork_map(lambda n, w: JOBS[w[0]](w[1], w[2]), work)
save_output(dict(cases=[c for l in res for c in l]))
