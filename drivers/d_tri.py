"""Triangulation of points and tracks; removal of outliers."""
import math
import numpy as np
from vcommon import *
from recval import make_camera, rand_pose, CAMTYPES
from opensfm import config as cfgm, pygeometry, pymap, types, reconstruction as orec

inp = load_input()
R = rng("tri")
cases = []


def case(kind, fn, **k):
    e = dict(op=kind, exc="")
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind=kind, events=[e]))


def vec(v):
    return [q(float(np.clip(x, -2000, 2000))) if np.isfinite(x) else 2000000000 for x in v]


def mat(A):
    return [vec(r) for r in np.asarray(A)]


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


def turn(b, a):
    """b turned by the angle a about a random axis across it"""
    x = unit(np.cross(b, [R.gauss(0, 1) for _ in range(3)]))
    return unit(math.cos(a) * b + math.sin(a) * x)


def closest(os, bs):
    A, y = np.zeros((3, 3)), np.zeros(3)
    for o, b in zip(os, bs):
        P = np.eye(3) - np.outer(b, b)
        A += P
        y += P @ o
    return np.linalg.lstsq(A, y, rcond=None)[0]


def scene_points(n, thr):
    """centres, exact directions, truth: near or far, well or badly spread"""
    X = np.array([R.uniform(-3, 3), R.uniform(-3, 3), R.choice([R.uniform(1, 4), R.uniform(5, 15)])])
    w = R.choice([3., 1., .3, .1, .05])
    base = np.array([R.uniform(-2, 2) for _ in range(3)]) * R.choice([0, 1])
    os = [base + np.array([R.uniform(-w, w) for _ in range(3)]) for _ in range(n)]
    if R.random() < .1:
        os = [os[0] + unit(X - os[0]) * (.3 * k) for k in range(n)]
    if R.random() < .12:  # the cameras are all around the point
        os = [X + unit([R.gauss(0, 1) for _ in range(3)]) * R.uniform(1, 8) for _ in range(n)]
    if R.random() < .07 and n == 2:
        os[1] = 2 * X - os[0]
    return os, [unit(X - o) for o in os], X


def disturb(bs, thr):
    m = R.choice(["exact", "exact", "noise", "edge", "one", "back"])
    if m == "noise":
        bs = [turn(b, R.uniform(0, thr)) for b in bs]
    elif m == "edge":
        bs = [turn(b, R.uniform(0, 2.5 * thr)) for b in bs]
    elif m == "one":
        k = R.randrange(len(bs))
        bs = [turn(b, R.choice([5 * thr, .5, 2])) if i == k else b for i, b in enumerate(bs)]
    elif m == "back":
        k = R.randrange(len(bs))
        bs = [-b if i == k or R.random() < .3 else b for i, b in enumerate(bs)]
    return m, bs


for n in range(inp["point"]):
    kind = R.choice(["mid", "mid", "dlt"])
    thr, ang, dep = R.choice([.006, .02, .001]), math.radians(R.choice([.5, 1, 2, 5])), R.choice([.001, .001, .5, 4])
    k = R.choice([2, 2, 3, 4, 6])
    os, bs, X = scene_points(k, thr)
    m, bs = disturb(bs, thr)
    poses = [rand_pose(R) for _ in os]
    for p, o in zip(poses, os):
        p.set_origin(o)
    rows = [dict(id="", o=vec(o), R=mat(p.get_rotation_matrix()) if kind == "dlt" else [], b=vec(p.get_rotation_matrix() @ b if kind == "dlt" else b)) for o, b, p in zip(os, bs, poses)]
    best = closest(os, bs)

    def point(e):
        if kind == "mid":
            ok, x = pygeometry.triangulate_bearings_midpoint(np.array(os), np.array(bs), k * [thr], ang, dep)
        else:
            ok, x = pygeometry.triangulate_bearings_dlt([p.get_Rt() for p in poses], np.array([p.get_rotation_matrix() @ b for b, p in zip(bs, poses)]), thr, ang, dep)
        e["ok"] = int(ok)
        e["x"] = vec(x) if ok else [0, 0, 0]
    case(kind, point, rays=rows, thr=q(thr), ang=q(ang), dep=q(dep), exact=int(m == "exact"), truth=vec(X), best=vec(X if kind == "dlt" else best), tol=30, ok=0, x=[0, 0, 0])

for n in range(inp["two"]):
    Rot = rand_pose(R).get_rotation_matrix()
    near = R.random() < .3   # a small baseline for rays that are nearly parallel
    t = np.array([R.uniform(-3, 3) for _ in range(3)]) * (.1 if near else 1)
    b1, b2, rows = [], [], []
    for k in range(R.randrange(1, 8)):
        a = unit([R.gauss(0, 1) for _ in range(3)])
        par = R.random() < .15
        b = a if par else turn(a, R.uniform(.003, .03) if near else R.choice([R.uniform(.02, .2), R.uniform(.2, 3)]))
        if par and R.random() < .5:
            b = -a
        b1.append(a)
        b2.append(Rot.T @ b)
        rows.append(dict(par=int(par), rays=[dict(id="", o=[0, 0, 0], R=[], b=vec(a)), dict(id="", o=vec(t), R=[], b=vec(b))], ok=0, x=[0, 0, 0]))

    def two(e):
        res = pygeometry.triangulate_two_bearings_midpoint_many(np.array(b1), np.array(b2), Rot, t)
        assert len(res) == len(rows)
        for r, (ok, x) in zip(rows, res):
            r["ok"], r["x"] = int(ok), vec(x) if ok else [0, 0, 0]
    if R.random() < .5:
        def two(e):
            for r in rows:
                ok, x = pygeometry.triangulate_two_bearings_midpoint(np.array([z["o"] for z in r["rays"]]) / 1e6, np.array([b1[rows.index(r)], Rot @ b2[rows.index(r)]]))
                r["ok"], r["x"] = int(ok), vec(x) if ok else [0, 0, 0]
    case("two", two, pairs=rows)

for n in range(inp["epi"]):
    Rot = rand_pose(R).get_rotation_matrix()
    t = np.array([R.uniform(-3, 3) for _ in range(3)]) * R.choice([1, .1, 10])
    b1 = [unit([R.gauss(0, 1) for _ in range(3)]) for _ in range(R.randrange(1, 5))]
    b2 = [unit([R.gauss(0, 1) for _ in range(3)]) for _ in range(R.randrange(1, 5))]
    if R.random() < .5:
        X = t + np.array([R.uniform(-5, 5) for _ in range(3)])
        b1[0], b2[0] = unit(X), unit(X - t)
    if any(np.linalg.norm(np.cross(unit(t), b)) < .05 for b in b1 + b2):
        continue

    def epi(e):
        a = pygeometry.epipolar_angle_two_bearings_many(np.array(b1), np.array([Rot.T @ b for b in b2]), Rot, t)
        e["got"] = mat(a)
    case("epi", epi, b1=mat(b1), b2=mat(b2), t=vec(t), got=[])

for n in range(inp["refine"]):
    k = R.choice([2, 3, 5])
    X = np.array([R.uniform(-3, 3), R.uniform(-3, 3), R.uniform(3, 10)])
    os = [np.array([R.uniform(-3, 3) for _ in range(3)]) for _ in range(k)]
    if max(np.linalg.norm(np.cross(unit(X - a), unit(X - b))) for a in os for b in os) < .15 or min(np.linalg.norm(X - o) for o in os) < 1:
        continue
    bs = [unit(X - o) for o in os]
    exact = R.random() < .5
    if not exact:
        bs = [turn(b, R.uniform(0, .02)) for b in bs]
    s = X + np.array([R.uniform(-.1, .1) for _ in range(3)]) * R.choice([0, 1, 3])

    def refine(e):
        e["x"] = vec(pygeometry.point_refinement(np.array(os), np.array(bs), s, 15))
    case("refine", refine, rays=[dict(id="", o=vec(o), R=[], b=vec(b)) for o, b in zip(os, bs)], start=vec(s), x=[0, 0, 0], truth=vec(X), exact=int(exact), tol=300)

# ------------------------------------------------------------------ scenes
CFG = cfgm.default_config() if hasattr(cfgm, "default_config") else None


def observe(cam, pose, X, ang):
    b = turn(unit(pose.transform(X)), ang) if ang else unit(pose.transform(X))
    if cam.projection_type not in ("spherical",) and b[2] < .3:
        return None
    p = cam.project(b)
    back = cam.pixel_bearing(p)
    if not np.all(np.isfinite(p)) or np.linalg.norm(back - b) > 1e-8:
        return None
    return p


for n in range(inp["scene"]):
    mode = R.choice(["shots", "retri", "track"])
    typ = R.choice(["FULL", "ROBUST"]) if mode != "track" else R.choice(["FULL", "ROBUST", "DLT"])
    thr, ang, dep = R.choice([.006, .02, .002]), R.choice([.5, 1, 2, 5]), R.choice([.001, .001, 1])
    rec, tm = types.Reconstruction(), pymap.TracksManager()
    ncam = R.randrange(1, 3)
    for c in range(ncam):
        rec.add_camera(make_camera(R, "c%d" % c, R.choice(CAMTYPES[:8] + ["spherical", "spherical"])))
    ns = R.randrange(2, 6)
    sp = {}
    rig = R.random() < .3
    instname = R.choice(["i%d", "s%d"])  # an instance may be called like some other shot
    if rig:
        rec.add_rig_camera(pymap.RigCamera(rand_pose(R, .3), "ra"))
        rec.add_rig_camera(pymap.RigCamera(rand_pose(R, .3), "rb"))
    wide = R.choice([2., .5, .1])
    for k in range(ns):
        pose = pygeometry.Pose(np.array([R.uniform(-.2, .2) for _ in range(3)]))
        pose.set_origin(np.array([R.uniform(-wide, wide), R.uniform(-wide, wide), R.uniform(-.5, .5)]))
        sid = "s%d" % k
        if rig:
            inst = instname % (k // 2)
            if k % 2 == 0:
                rec.add_rig_instance(pymap.RigInstance(inst))
            rec.create_shot(sid, "c%d" % R.randrange(ncam), pose, "ra" if k % 2 == 0 else "rb", inst)
            rec.rig_instances[inst].pose = pose.compose(pygeometry.Pose())
        else:
            rec.create_shot(sid, "c%d" % R.randrange(ncam), pose)
    tracks = []
    extra = R.random() < .5
    for k in range(R.randrange(1, 10)):
        tid = "t%d" % k
        X = np.array([R.uniform(-3, 3), R.uniform(-3, 3), R.choice([R.uniform(3, 6), R.uniform(8, 20)])])
        m = R.choice(["exact", "exact", "noise", "edge", "one"])
        ids = R.sample(sorted(rec.shots), R.randrange(1, ns + 1))
        bad = R.choice(ids)
        rows = []
        for f, sid in enumerate(ids):
            s = rec.shots[sid]
            a = {"exact": 0, "noise": R.uniform(0, thr), "edge": R.uniform(0, 2.5 * thr), "one": R.choice([4 * thr, .3]) if sid == bad else 0}[m]
            p = observe(s.camera, s.pose, X, a)
            if p is None:
                continue
            tm.add_observation(sid, tid, pymap.Observation(p[0], p[1], R.choice([.004, .001]), R.randrange(256), 2, R.randrange(256), 100 * k + f, R.choice([-1, 3]), R.choice([-1, 5])))
            rows.append(dict(id=sid, o=vec(s.pose.get_origin()), R=mat(s.pose.get_rotation_matrix()), b=vec(s.camera.pixel_bearing(p))))
        if extra and R.random() < .5:
            tm.add_observation("other", tid, pymap.Observation(.1, .1, .004, 1, 2, 3, 7000 + k))
        if rows:
            os = [np.array(r["o"]) / 1e6 for r in rows]
            shots = [rec.shots[r["id"]] for r in rows]
            bs = [s.pose.get_rotation_matrix().T @ s.camera.pixel_bearing(tm.get_observation(s.id, tid).point) for s in shots]
            best = closest([s.pose.get_origin() for s in shots], bs)
            tracks.append(dict(id=tid, rays=rows, before=0, kept=0, asked=0, ok=0, x=[0, 0, 0], obs=[], same=1, exact=int(m == "exact"), truth=vec(X), best=vec(best), tol=200))
    if not tracks:
        continue
    tm_shots = set(tm.get_shot_ids())
    for t in tracks:
        if mode != "track" and R.random() < .3:
            p = rec.create_point(t["id"], np.array([R.uniform(-9, 9) for _ in range(3)]))
            p.color = [1, 2, R.randrange(256)]
            s = R.choice(t["rays"])["id"]
            rec.add_observation(s, t["id"], tm.get_observation(s, t["id"]))
            t["before"] = 1
    ask = set(R.sample(sorted(rec.shots), R.randrange(1, ns + 1))) if mode == "shots" else set(rec.shots)
    for t in tracks:
        t["asked"] = int(mode != "shots" or any(r["id"] in ask for r in t["rays"]))
        if mode == "track":
            t["asked"] = int(R.random() < .8)
    cfg = dict(CFG or {}, triangulation_threshold=thr, triangulation_min_ray_angle=ang, triangulation_min_depth=dep, triangulation_refinement_iterations=R.choice([10, 20]), triangulation_type=typ)
    if mode == "shots" and R.random() < .3:
        rec.create_shot("untracked", "c0", rand_pose(R))
        ask.add("untracked")

    def scene(e):
        old = {}
        for t in tracks:
            if t["before"]:
                p = rec.points[t["id"]]
                old[t["id"]] = [tok(x) for x in p.coordinates] + list(map(int, p.color)) + sorted((s.id, f) for s, f in p.get_observations().items())
        np.random.seed(R.randrange(10**6))
        if mode == "shots":
            orec.triangulate_shot_features(tm, rec, ask, cfg)
        elif mode == "retri":
            orec.retriangulate(tm, rec, cfg)
        else:
            tri = orec.TrackTriangulator(rec, orec.TrackHandlerTrackManager(tm, rec))
            f = {"FULL": tri.triangulate, "ROBUST": tri.triangulate_robust, "DLT": tri.triangulate_dlt}[typ]
            for t in tracks:
                if t["asked"]:
                    f(t["id"], thr, ang, dep, cfg["triangulation_refinement_iterations"])
        for t in tracks:
            if t["id"] in rec.points:
                p = rec.points[t["id"]]
                t["ok"] = 1
                t["x"] = vec(p.coordinates)
                t["obs"] = sorted(s.id for s in p.get_observations())
                now = [tok(x) for x in p.coordinates] + list(map(int, p.color)) + sorted((s.id, f) for s, f in p.get_observations().items())
                t["kept"] = int(old.get(t["id"]) == now)
                for s in p.get_observations():
                    a, b = rec.shots[s.id].get_landmark_observation(p), tm.get_observation(s.id, t["id"])
                    if [tok(x) for x in a.point] != [tok(x) for x in b.point] or (a.id, a.scale, list(a.color), a.segmentation, a.instance) != (b.id, b.scale, list(b.color), b.segmentation, b.instance):
                        t["same"] = 0
        e["count"] = len(rec.points)
    case("scene", scene, mode=mode, type=typ, thr=q(thr), ang=q(math.radians(ang)), dep=q(dep), tracks=tracks, count=0)


def rate(e):
    thr = .006
    for n in range(e["total"]):
        rec, tm = types.Reconstruction(), pymap.TracksManager()
        cam = pygeometry.Camera.create_perspective(.9, 0, 0)
        cam.id = "c"
        rec.add_camera(cam)
        X = np.array([R.uniform(-1, 1), R.uniform(-1, 1), 6.])
        bad = n % 3
        for k in range(3):
            pose = pygeometry.Pose()
            pose.set_origin(np.array([k - 1., R.uniform(-1, 1), 0]))
            s = rec.create_shot("s%d" % k, "c", pose)
            p = observe(cam, pose, X, .05 if k == bad else 0)
            tm.add_observation("s%d" % k, "t", pymap.Observation(p[0], p[1], .004, 1, 2, 3, k))
        np.random.seed(R.randrange(10**6))
        orec.TrackTriangulator(rec, orec.TrackHandlerTrackManager(tm, rec)).triangulate_robust("t", thr, 1., .001, 10)
        if "t" not in rec.points:
            e["missed"] += 1
        else:
            d = np.linalg.norm(rec.points["t"].coordinates - X)
            # a wrong ray may by chance meet one of the others
            if d > .02:
                obs = {s.id for s in rec.points["t"].get_observations()}
                if "s%d" % bad not in obs:
                    e["wrong"] += 1
                else:
                    e["total"] -= 1


case("rate", rate, total=inp["rate"], missed=0, wrong=0)

for n in range(inp["outliers"]):
    dim = R.choice([2, 2, 3])
    rec = types.Reconstruction()
    rec.add_camera(make_camera(R, "c", "spherical" if dim == 3 else "perspective"))
    ns = R.randrange(2, 6)
    for k in range(ns):
        rec.create_shot("s%d" % k, "c", rand_pose(R))
    typ = R.choice(["FIXED", "FIXED", "AUTO"])
    thr, ratio = R.choice([.006, .02]), R.choice([3., 1.5])
    pts = []
    for k in range(R.randrange(1, 8)):
        p = rec.create_point("p%d" % k, np.array([R.uniform(-9, 9) for _ in range(3)]))
        obs = []
        errs = {}
        for s in R.sample(sorted(rec.shots), R.randrange(1 if R.random() < .3 else 2, ns + 1)):
            rec.add_observation(s, p.id, pymap.Observation(.1, .1, .004, 1, 2, 3, k))
            v = unit([R.gauss(0, 1) if i < dim else 0 for i in range(3)])
            if dim == 3 and R.random() < .3:
                v = np.array([0, 0, R.choice([-1., 1.])])
            v = v * thr * R.choice([R.uniform(0, .9), R.uniform(0, .9), R.uniform(1.1, 3), 1.05, .95])
            errs[s] = v[:dim]
            obs.append(dict(s=s, err=vec(v)))
        if R.random() < .2 and obs:  # errors known for some observations only
            s = R.choice(obs)
            obs.remove(s)
            del errs[s["s"]]
        p.reprojection_errors = errs
        pts.append(dict(id=p.id, obs=obs, listed=1, left=[], there=0, extra=p.number_of_observations() - len(obs)))
    pts = [p for p in pts]
    part = R.random() < .4
    if part:
        for p in pts:
            p["listed"] = int(R.random() < .6)
    if sum(len(p["obs"]) for p in pts) == 0:
        continue

    def outl(e):
        full = {p["id"]: {s.id for s in rec.points[p["id"]].get_observations()} for p in pts}
        other = [(s.id, [tok(x) for x in s.pose.translation]) for s in rec.shots.values()]
        cfg = dict(bundle_outlier_filtering_type=typ, bundle_outlier_auto_ratio=ratio, bundle_outlier_fixed_threshold=thr)
        sub = None
        if part:
            sub = [p["id"] for p in pts if p["listed"]]
        e["count"] = orec.remove_outliers(rec, cfg, sub)
        for p in pts:
            known = {o["s"] for o in p["obs"]}
            if p["id"] in rec.points:
                p["there"] = 1
                now = {s.id for s in rec.points[p["id"]].get_observations()}
                p["left"] = sorted(now)
                if not (full[p["id"]] - known) <= now:
                    e["rest"] = 0
        if other != [(s.id, [tok(x) for x in s.pose.translation]) for s in rec.shots.values()]:
            e["rest"] = 0
        ids = {p["id"] for p in pts}
        for s in rec.shots.values():
            for lm in s.get_valid_landmarks():
                if lm.id not in ids or s.id not in {x.id for x in rec.points[lm.id].get_observations()}:
                    e["rest"] = 0
    case("outliers", outl, dim=dim, type=typ, thr=q(thr), ratio=q(ratio), points=pts, count=0, rest=1)
save_output(dict(cases=cases))
