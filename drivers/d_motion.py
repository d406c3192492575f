"""Motion estimation: robust estimators, minimal solvers, two-view reconstruction, resection, alignment of reconstructions."""
import math
import cv2
import numpy as np
from vcommon import *
from recval import make_camera, rand_pose, CAMTYPES
from opensfm import geo, pygeometry, pymap, pyrobust, types, multiview, matching, reconstruction as orec
from opensfm.dataset import DataSet

inp = load_input()
R = rng("motion")
cases = []


def case(kind, fn, **k):
    e = dict(op=kind, exc="")
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind=kind, events=[e]))


def vec(v):
    return [q(float(np.clip(x, -2000, 2000))) if np.isfinite(x) else 2000000000 for x in np.asarray(v, dtype=float).ravel()]


def mat(A):
    return [vec(r) for r in np.asarray(A)]


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


def turn(b, a):
    x = unit(np.cross(b, [R.gauss(0, 1) for _ in range(3)]))
    return unit(math.cos(a) * b + math.sin(a) * x)


def rndv(s=1.):
    return np.array([R.uniform(-s, s) for _ in range(3)])


def rndrot(a=None):
    ax = unit([R.gauss(0, 1) for _ in range(3)])
    return cv2.Rodrigues(ax * (R.uniform(0, 3.1) if a is None else R.uniform(0, a)))[0]


def middle(o1, b1, o2, b2):
    """point half way between two rays"""
    A = np.array([b1, -b2]).T
    if np.linalg.norm(np.cross(b1, b2)) < 1e-4:
        return None
    l = np.linalg.lstsq(A, o2 - o1, rcond=None)[0]
    return (o1 + l[0] * b1 + o2 + l[1] * b2) / 2


PR = pyrobust.RobustEstimatorParams
TYPES = dict(RANSAC=pyrobust.RansacType.RANSAC, MSAC=pyrobust.RansacType.MSAC, LMedS=pyrobust.RansacType.LMedS)
MINS = dict(line=2, known=2, absolute=3, rotation=3, relative=5, essential=5, similarity=3)


def two_scene(n, wide=None):
    """relative motion (R, t: second camera from the first), points in the first camera's frame in front of both"""
    w = wide or R.choice([.3, 1.])
    c = unit([R.gauss(0, 1), R.gauss(0, 1), .3 * R.gauss(0, 1)]) * w
    Rot = rndrot(.4)
    X = np.array([[R.uniform(-2, 2), R.uniform(-2, 2), R.uniform(3, 8)] for _ in range(n)])
    return Rot, -Rot @ c, c, X


def build(name, n, n_in, noise, thr):
    """samples a, b; truth (rows) ; index of the members.  Members fit within noise, the others clearly do not."""
    ins = sorted(R.sample(range(n), n_in))
    A, B = [], []
    if name == "line":
        a, b = R.uniform(-3, 3), R.uniform(-3, 3)
        for i in range(n):
            x = R.uniform(-5, 5)
            d = R.uniform(-noise, noise) if i in ins else R.choice([-1, 1]) * R.uniform(2 * thr + .1, 3)
            A.append([x, a * x + b + d, 0])
            B.append([0, 0, 0])
        return A, B, [[a, b, 0]], ins
    if name in ("known", "absolute"):
        Rot = np.eye(3) if name == "known" else rndrot()
        t = rndv(3)
        for i in range(n):
            Y = rndv(3) + np.array([0, 0, 6]) if R.random() < .8 else rndv(6)
            b = unit(Y)
            X = Rot.T @ (Y - t)
            b = turn(b, R.uniform(0, noise)) if i in ins else turn(b, R.uniform(5 * thr + .05, 2.5))
            A.append(b)
            B.append(X)
        return A, B, ([t] if name == "known" else list(np.hstack([Rot, t[:, None]]))), ins
    if name == "rotation":
        Rot = rndrot()
        for i in range(n):
            b = unit([R.gauss(0, 1) for _ in range(3)])
            A.append(b)
            B.append(turn(Rot @ b, R.uniform(0, noise) if i in ins else R.uniform(5 * thr + .05, 2.5)))
        return A, B, list(Rot), ins
    if name in ("relative", "essential"):
        Rot, t, c, X = two_scene(n)
        for i in range(n):
            a, b = unit(X[i]), unit(Rot @ X[i] + t)
            if i in ins:
                a, b = turn(a, R.uniform(0, noise)), turn(b, R.uniform(0, noise))
            else:
                nrm = unit(np.cross(unit(t), Rot @ a))
                while abs(nrm @ b) < .1 + 5 * thr:
                    b = unit(rndv() + [0, 0, .7])
            A.append(a)
            B.append(b)
        return A, B, list(np.hstack([Rot, unit(t)[:, None]])), ins
    s, Rot, t = math.exp(R.uniform(-1, 1)), rndrot(), rndv(3)
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = s * Rot, t
    for i in range(n):
        x = rndv(3)
        y = s * Rot @ x + t
        y = y + (unit(rndv()) * (R.uniform(0, noise) if i in ins else R.uniform(3 * thr + .3, 5)))
        A.append(x)
        B.append(y)
    return A, B, list(T), ins


def run(name, A, B, thr, params, typ):
    A, B = np.array(A, dtype=float), np.array(B, dtype=float)
    T = TYPES[typ]
    if name == "line":
        return pyrobust.ransac_line(A[:, :2], thr, params, T)
    f = dict(known=pyrobust.ransac_absolute_pose_known_rotation, absolute=pyrobust.ransac_absolute_pose, rotation=pyrobust.ransac_relative_rotation,
             relative=pyrobust.ransac_relative_pose, essential=pyrobust.ransac_essential, similarity=pyrobust.ransac_similarity)[name]
    return f(A, B, thr, params, T)


def result(e, name, res, A, B):
    m = np.asarray(res.lo_model)
    if name in ("line",):
        m = np.array([[m.ravel()[0], m.ravel()[1], 0]])
    elif name == "known":
        m = m.reshape(1, 3)
    e["model"] = mat(m)
    e["inl"] = sorted(int(i) + 1 for i in res.inliers_indices)
    e["score"] = int(res.score) if e["type"] == "RANSAC" else q(min(2000., 1. / res.score)) if res.score > 0 else 2000000000
    if name == "relative":
        Rot, t = m[:, :3], m[:, 3]
        c = -Rot.T @ t
        for a, b in zip(A, B):
            x = middle(np.zeros(3), unit(a), c, Rot.T @ unit(b)) if np.all(np.isfinite(m)) else None
            e["mid"].append(dict(ok=1, x=vec(x)) if x is not None and np.abs(x).max() < 600 else dict(ok=0, x=[0, 0, 0]))


for n in range(inp["ransac"]):
    name = R.choice(sorted(MINS))
    typ = R.choice(["RANSAC"] * 3 + ["MSAC", "LMedS"])
    thr = R.choice([.05, .2, 1.]) if name in ("line", "similarity") else R.choice([.004, .01, .02])
    k = R.choice([MINS[name], MINS[name] + 1, 10, 20, 30])
    mode = R.choice(["exact", "exact", "noise", "junk"])
    n_in = k if k < 8 else R.randrange(int(.6 * k) + 1, k + 1)
    if mode == "junk":
        n_in = R.randrange(0, k // 2 + 1)
    noise = {"exact": 0, "noise": .8 * thr, "junk": .5 * thr}[mode]
    A, B, truth, ins = build(name, k, n_in, noise, thr)
    if typ == "LMedS":
        thr = R.choice([1., 2.5])
    p = PR()
    p.iterations = 400
    p.use_local_optimization = R.random() < .6
    p.use_iteration_reduction = R.random() < .3
    must = int(mode == "exact" and not p.use_iteration_reduction and typ != "LMedS" and k >= 8)
    case("ransac", lambda e: result(e, name, run(name, A, B, thr, p, typ), A, B), name=name, type=typ, thr=q(thr), a=mat(A), b=mat(B), truth=mat(truth), ins=[i + 1 for i in ins], must=must, model=[], inl=[], score=0, mid=[])

# every set of points enumerated by the model, fitted by a line
if inp.get("lines"):
    for it in inp["lines"]:
        pts = it["p"]
        p = PR()
        p.iterations = 300
        p.use_iteration_reduction = False
        A = [[float(x), float(y), 0.] for x, y in pts]
        case("grid", lambda e: result(e, "line", run("line", A, A, .3, p, "RANSAC"), A, A), name="line", type="RANSAC", thr=300000, a=mat(A), b=mat(A), truth=[], ins=[], must=0, pts=[list(x) for x in pts], most=it["m"], model=[], inl=[], score=0, mid=[])


def solvers(e):
    """exact problems and the answers of a solver"""
    for n in range(e["total"]):
        name = e["name"]
        it = dict(a=[], b=[], truth=[], start=[])
        if name in ("p3p", "pnp", "pnpk"):
            k = 3 if name == "p3p" else R.choice([10, 30])
            A, B, truth, _ = build("known" if name == "pnpk" else "absolute", k, k, 0, .01)
            A, B = np.array(A), np.array(B)
            f = dict(p3p=pygeometry.absolute_pose_three_points, pnp=pygeometry.absolute_pose_n_points, pnpk=pygeometry.absolute_pose_n_points_known_rotation)[name]
            out = f(A, B)
            it["out"] = [mat(o) for o in out] if name == "p3p" else [mat(np.asarray(out).reshape(1, 3))] if name == "pnpk" else [mat(out)]
            it["truth"] = mat(np.array(truth).reshape(-1, 3) if name == "pnpk" else truth)
        elif name in ("e5", "en"):
            k = 5 if name == "e5" else R.choice([9, 20])
            A, B, truth, _ = build("relative", k, k, 0, .01)
            truth = np.array(truth)
            out = (pygeometry.essential_five_points if name == "e5" else pygeometry.essential_n_points)(np.array(A), np.array(B))
            it["out"], it["truth"] = [mat(o / np.abs(o).max()) for o in out], mat(multiview.cross_product_matrix(truth[:, 3]) @ truth[:, :3])
            it["a"], it["b"] = mat(A), mat(B)
        elif name == "rot":
            A, B, truth, _ = build("rotation", R.choice([3, 10]), 3, 0, .01)
            B = [np.array(truth) @ a for a in A]
            it["out"], it["truth"] = [mat(pygeometry.relative_rotation_n_points(np.array(A), np.array(B)))], mat(np.array(truth))
        elif name == "decompose":
            k = R.choice([1, 1, 2, 3, 5, 10])
            A, B, truth, _ = build("relative", k, k, R.choice([0, 0, 1e-4]), .01)
            truth = np.array(truth)
            E = multiview.cross_product_matrix(truth[:, 3]) @ truth[:, :3] * R.choice([1, -1, .1, 5])
            it["out"], it["truth"] = [mat(pygeometry.relative_pose_from_essential(E, np.array(A), np.array(B)))], mat(truth)
        elif name == "refine":
            k = R.choice([8, 20])
            A, B, truth, _ = build("relative", k, k, 0, .01)
            truth = np.array(truth)
            Rt = truth.copy()
            eps = R.choice([0, 1e-3, 1e-2])
            Rt[:, :3] = cv2.Rodrigues(unit(rndv()) * eps)[0] @ Rt[:, :3]
            Rt[:, 3] += unit(rndv()) * eps
            it["out"], it["start"], it["a"], it["b"] = [mat(pygeometry.relative_pose_refinement(Rt, np.array(A), np.array(B), 1000))], mat(Rt), mat(A), mat(B)
        e["items"].append(it)


for name in ("p3p", "pnp", "pnpk", "e5", "en", "rot", "decompose", "refine"):
    case("solvers", solvers, name=name, total=inp["solvers"], items=[])


def rates(e):
    for n in range(e["total"]):
        A, B, truth, ins = build(e["name"], 20, 14, 0, .01)
        p = PR()
        p.iterations = 1000
        r = run(e["name"], A, B, .1 if e["name"] in ("line", "similarity") else .01, p, "RANSAC")
        e["items"].append(dict(ins=[int(i) for i in ins], inl=[int(i) for i in r.inliers_indices]))


for name in sorted(MINS):
    case("rates", rates, name=name, total=inp["solvers"], items=[])


def observe(cam, b):
    if cam.projection_type != "spherical" and b[2] < .25:
        return None
    p = cam.project(b)
    back = cam.pixel_bearing(p)
    if not np.all(np.isfinite(p)) or np.linalg.norm(back - b) > 1e-7:
        return None
    return p


for n in range(inp["two"]):
    kind = R.choice(["general", "general", "plane", "rotation", "junk"])
    cams = [make_camera(R, "c%d" % i, R.choice(CAMTYPES[:8] + ["spherical"])) for i in range(2)]
    thr = R.choice([.004, .01])
    N = R.choice([12, 30, 60])
    Rot, t, c, X = two_scene(N, 1.)
    if kind == "rotation":
        t, c = np.zeros(3), np.zeros(3)
    if kind == "plane":
        nrm = unit([.4 * R.gauss(0, 1), .4 * R.gauss(0, 1), -1])
        d = R.uniform(4, 7)
        X = np.array([x * (-d / (nrm @ x)) for x in X if nrm @ x < -.5])
    share = R.choice([0, 0, .2, .35])
    p1, p2, a1, a2, ins = [], [], [], [], []
    for x in X:
        a, b = unit(x), unit(Rot @ x + t)
        bad = R.random() < (share if kind != "junk" else .9)
        if bad:
            nr = unit(np.cross(unit(t), Rot @ a)) if kind != "rotation" else None
            for _ in range(100):
                b = unit(rndv() + [0, 0, .9])
                if (abs(nr @ b) > .1 if nr is not None else np.linalg.norm(b - Rot @ a) > .1):
                    break
        u, v = observe(cams[0], a), observe(cams[1], b)
        if u is None or v is None:
            continue
        if not bad:
            ins.append(len(p1) + 1)
        p1.append(u)
        p2.append(v)
    if len(p1) < 10 or (kind != "junk" and len(ins) < max(8, .6 * len(p1))):
        continue
    p1, p2 = np.array(p1), np.array(p2)
    b1, b2 = cams[0].pixel_bearing_many(p1), cams[1].pixel_bearing_many(p2)
    how = {"general": "general", "junk": "general", "plane": R.choice(["general", "plane", "plane"]), "rotation": "rotation"}[kind]
    rev = R.random() < .3

    def two(e):
        np.random.seed(1)
        cv2.setRNGSeed(1)
        rep = {}
        if how == "general":
            r, tt, inl, rep = orec.two_view_reconstruction_general(p1, p2, cams[0], cams[1], thr, 1000, rev, .95)
        elif how == "plane":
            r, tt, inl = orec.two_view_reconstruction_plane_based(b1, b2, thr)
        else:
            r, inl = orec.two_view_reconstruction_rotation_only(p1, p2, cams[0], cams[1], thr)
            tt = np.zeros(3)
        e["inl"] = sorted(int(i) + 1 for i in inl)
        if r is None:
            return
        e["ok"] = 1
        Q = cv2.Rodrigues(np.asarray(r))[0]
        e["R"], e["t"] = mat(Q), vec(tt)
        e["t1"] = vec(unit(tt)) if np.linalg.norm(tt) > 1e-9 else [0, 0, 0]
        if rep:
            e["n5"], e["np"], e["method"] = rep["5_point_inliers"], rep["plane_based_inliers"], rep.get("method", "")
        cc = -Q.T @ tt
        for a, b in zip(b1, b2):
            x = middle(np.zeros(3), a, cc, Q.T @ b)
            e["mid"].append(dict(ok=1, x=vec(x)) if x is not None and np.abs(x).max() < 600 else dict(ok=0, x=[0, 0, 0]))
    # the five point method cannot tell planes and small motions apart well: truth is asked for general scenes
    case("two", two, scene=kind, how=how, rev=int(rev), thr=q(thr), a=mat(b1), b=mat(b2), ins=ins, truthR=mat(Rot), trutht=vec(unit(t)) if kind != "rotation" else [0, 0, 0], ok=0, R=[], t=[], t1=[], inl=[], mid=[], n5=-1, np=-1, method="")

for n in range(inp["bear"]):
    Rot, t, c, X = two_scene(R.randrange(1, 8))
    thr = R.choice([.004, .01, .05])
    a, b = [], []
    for x in X:
        m = R.choice(["in", "edge", "out", "behind", "far"])
        if m == "far":
            x = x * R.choice([50, 1e9])
        if m == "behind":
            x = -x
        z = {"in": .5, "edge": 2.5, "out": 30, "behind": .1, "far": .2}[m] * thr
        u, v = unit(x), unit(Rot @ x + t)
        if m == "behind" and R.random() < .5:
            v = -v
        a.append(turn(u, R.uniform(0, z)))
        b.append(turn(v, R.uniform(0, z)))
    a, b = np.array(a), np.array(b)
    mids = []
    for u, v in zip(a, b):
        x = middle(np.zeros(3), u, c, Rot.T @ v)
        mids.append(dict(ok=1, x=vec(x)) if x is not None and np.abs(x).max() < 600 else dict(ok=0, x=[0, 0, 0]))
    pose = pygeometry.Pose(Rot, t)
    base = [abs(np.linalg.norm(np.cross(unit(c), u))) for u in a] + [abs(np.linalg.norm(np.cross(unit(c), Rot.T @ v))) for v in b]

    def bear(e):
        e["inl"] = [i + 1 for i, z in enumerate(matching.compute_inliers_bearings(a, b, Rot.T, c, thr)) if z]
        if min(base) > .05:
            e["epi"] = [[int(z) for z in r] for r in matching.compute_inliers_bearing_epipolar(a, b, pose, thr)]
    case("bear", bear, thr=q(thr), a=mat(a), b=mat(b), R=mat(Rot), t=vec(t), c=vec(unit(c)), mid=mids, inl=[], epi=[])

for n in range(inp["homography"]):
    Rot, t = rndrot(1.), rndv(1)
    nn, d = unit(rndv()), R.uniform(1, 5)
    H = d * Rot - np.outer(t, nn)
    H = H * R.choice([1, 1, -1, .5])

    def homography(e):
        m = multiview.motion_from_plane_homography(H)
        e["none"] = int(m is None)
        for Q, tt, nv, dd in m or []:
            e["sols"].append(dict(R=mat(Q), t=vec(tt), n=vec(nv), d=q(float(dd))))
    s = np.linalg.svd(H)[1]
    case("homography", homography, H=mat(H), truth=mat(Rot), close=int(min(s[0] / s[1], s[1] / s[2]) < 1.01), none=0, sols=[])

# ------------------------------------------------------------------ resection and common tracks
import os
import shutil
def dataset(k, shots, cams, rigs):
    d = os.path.join(SCRATCH, "ds%d" % k)
    os.makedirs(os.path.join(d, "images"))
    for s in shots:
        open(os.path.join(d, "images", s), "wb").close()
    data = DataSet(d)
    data.save_camera_models(cams)
    data.save_reference(geo.TopocentricConverter(10, 20, 30))
    for i, s in enumerate(shots):
        data.save_exif(s, dict(camera=shots[s], width=4000, height=3000, capture_time=1000. + i, orientation=1, make="m", model="x"))
    if rigs:
        data.save_rig_assignments(rigs)
    return data, d


for n in range(inp["resect"]):
    cams = {"c%d" % i: make_camera(R, "c%d" % i, R.choice(CAMTYPES[:8] + ["spherical"])) for i in range(2)}
    shots = {"s%d.jpg" % i: R.choice(sorted(cams)) for i in range(4)}
    rig = R.random() < .4
    thr = R.choice([.004, .01])
    mini = R.choice([8, 10, 15])
    rec, tm = types.Reconstruction(), pymap.TracksManager()
    for c in cams.values():
        rec.add_camera(c)
    rel = pygeometry.Pose(np.array([0., .2, 0]), np.array([.1, 0., 0.]))
    if rig:
        rec.add_rig_camera(pymap.RigCamera(rel, "ra"))
        rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), "rb"))
    poses = {}
    for s in shots:
        p = pygeometry.Pose(rndv(.2))
        p.set_origin(rndv(1))
        poses[s] = p
    if rig:
        # the last two images form a rig
        poses["s3.jpg"] = pygeometry.Pose(rndv(.2))
        inst = poses["s3.jpg"]                 # rig camera rb is the identity
        poses["s2.jpg"] = rel.compose(inst)
    for s in ("s0.jpg", "s1.jpg"):
        rec.create_shot(s, shots[s], poses[s])
    new = R.choice(["s2.jpg", "s3.jpg"]) if rig else "s3.jpg"
    N = R.choice([4, 5, 12, 30])
    share = R.choice([0, 0, .2, .4])
    rows, good = [], 0
    for k in range(N):
        X = np.array([R.uniform(-2, 2), R.uniform(-2, 2), R.uniform(4, 8)])
        tid = "t%d" % k
        there = R.random() < .9
        for s in ("s0.jpg", "s1.jpg", "s2.jpg", "s3.jpg"):
            if s in ("s0.jpg", "s1.jpg") or s == new or (rig and s != new):
                b = unit(poses[s].transform(X))
                bad = s == new and R.random() < share
                if bad:
                    b = turn(b, R.uniform(.1, .8))
                p = observe(cams[shots[s]], b)
                if p is None:
                    continue
                tm.add_observation(s, tid, pymap.Observation(p[0], p[1], .004, 1, 2, 3, 100 * k + int(s[1])))
                if s == new:
                    rows.append(dict(id=tid, X=vec(X), b=vec(b), there=int(there), bad=int(bad)))
        if there:
            rec.create_point(tid, X)
    if not rows:
        continue
    rigs = {"inst": [("s2.jpg", "ra"), ("s3.jpg", "rb")]} if rig else {}
    data, where = dataset(n, shots, cams, rigs)
    data.config["triangulation_min_ray_angle"] = 1.0
    prior = [dict(id=p, x=[tok(z) for z in rec.points[p].coordinates]) for p in sorted(rec.points)]

    def resect(e):
        ok, added, rep = orec.resect(data, tm, rec, new, thr, mini)
        e["ok"], e["added"], e["common"], e["inliers"] = int(bool(ok)), sorted(added), rep["num_common_points"], rep.get("num_inliers", -1)
        e["shots"] = sorted(rec.shots)
        e["old"] = int(all(r["id"] in rec.points and [tok(z) for z in rec.points[r["id"]].coordinates] == r["x"] for r in prior) and all(np.abs(rec.shots[s].pose.get_Rt() - poses[s].get_Rt()).max() == 0 for s in ("s0.jpg", "s1.jpg")))
        if ok:
            s = rec.shots[new]
            e["R"], e["t"] = mat(s.pose.get_rotation_matrix()), vec(s.pose.translation)
            e["obs"] = sorted(lm.id for lm in s.get_valid_landmarks())
            e["cam"] = s.camera.id
            for x in added:
                if np.abs(rec.shots[x].pose.get_Rt() - poses[x].get_Rt()).max() > .004 + 8 * thr:
                    e["far"] = 1
            if rig and len(added) == 2 and np.abs(rec.shots["s2.jpg"].pose.compose(rec.shots["s3.jpg"].pose.inverse()).get_Rt() - rel.get_Rt()).max() > 1e-9:
                e["far"] = 1
            for lm in s.get_valid_landmarks():
                if s.get_landmark_observation(lm).id != tm.get_observation(new, lm.id).id:
                    e["old"] = 0
    case("resect", resect, rows=rows, thr=q(thr), min=mini, rig=int(rig), new=new, want=sorted(["s2.jpg", "s3.jpg"] if rig else [new]), cam0=shots[new], truthR=mat(poses[new].get_rotation_matrix()), trutht=vec(poses[new].translation),
         ok=0, added=[], common=0, inliers=-1, shots=[], old=1, R=[], t=[], obs=[], cam="", far=0)
    shutil.rmtree(where)

for n in range(inp["common"]):
    recs, tms = [], []
    sim = rand_pose(R)
    s, Rot, b = math.exp(R.uniform(-1, 1)), rndrot(), rndv(4)
    N = R.choice([3, 7, 12, 30])
    share = R.choice([0, 0, .3])
    world = [rndv(5) for _ in range(N)]
    feats = {(im, k): 10 * k + i for i, im in enumerate("abcd") for k in range(N)}
    obs = []
    for r in range(2):
        rec, tm = types.Reconstruction(), pymap.TracksManager()
        rec.add_camera(make_camera(R, "c", "perspective"))
        here = R.sample("abcd", R.randrange(2, 5))
        for im in here:
            if R.random() < .9:
                rec.create_shot(im, "c", rand_pose(R))
        order = R.sample(range(N), N)
        for j, k in enumerate(order):
            tid = "t%d" % j
            for im in here:
                if R.random() < .7:
                    tm.add_observation(im, tid, pymap.Observation(.1, .1, .004, 1, 2, 3, feats[im, k]))
                    obs.append(dict(r=r + 1, im=im, t=tid, f=feats[im, k]))
            if R.random() < .9:
                bad = R.random() < share
                x = world[k] if not bad else rndv(30) + 40
                rec.create_point(tid, x if r == 0 else s * Rot @ x + b)
                obs.append(dict(r=r + 1, im="", t=tid, f=1000 if bad else 0))
        recs.append(rec)
        tms.append(tm)

    def common(e):
        e["got"] = sorted([list(p) for p in orec.compute_common_tracks(recs[0], recs[1], tms[0], tms[1])])
        np.random.seed(R.randrange(10**6))
        ok, T, inl = orec.resect_reconstruction(recs[0], recs[1], tms[0], tms[1], e["thr"] / 1e6, 3)
        e["ok"], e["T"], e["inl"] = int(bool(ok)), mat(T), sorted([list(p) for p in inl])
        for p in e["got"]:
            e["pts"].append(dict(p=p, x=vec(recs[0].points[p[0]].coordinates), y=vec(recs[1].points[p[1]].coordinates)))
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = s * Rot, b
    case("common", common, obs=obs, shots=[sorted(r.shots) for r in recs], truth=mat(T), thr=q(.1), exact=int(share == 0), got=[], ok=0, T=[], inl=[], pts=[])
save_output(dict(cases=cases))
