"""Alignment of reconstructions to GPS and control points."""
import math
import numpy as np
from vcommon import *
from opensfm import align, config as cfgm, geo, pygeometry, pymap, types

inp = load_input()
R = rng("align")
cases = []
# right, down, front of the upright image for each stored orientation: rows of the rotation, signed
DIRS = {1: [1, 2, 3], 3: [-1, -2, 3], 6: [-2, 1, 3], 8: [2, -1, 3], 4: [1, -2, 3]}


def rotv(v):
    return pygeometry.Pose(np.array(v, dtype=float)).get_rotation_matrix()


def randrot(a=3.0):
    v = np.array([R.gauss(0, 1) for _ in range(3)])
    return rotv(v / np.linalg.norm(v) * R.uniform(0, a))


def look(prior, yaw):
    """Rows right, down, front of an upright camera."""
    c, s = math.cos(yaw), math.sin(yaw)
    right = np.array([c, s, 0.])
    if prior == "vertical":
        front = np.array([0, 0, -1.])
    elif prior == "horizontal":
        front = np.array([-s, c, 0.])
    else:
        p = R.uniform(-1.2, 1.2)
        front = math.cos(p) * np.array([-s, c, 0.]) + math.sin(p) * np.array([0, 0, 1.])
    return np.array([right, np.cross(front, right), front])


def store(up, o):
    """Rotation of the stored image whose upright version has rows up."""
    M = np.zeros((3, 3))
    for k, d in enumerate(DIRS[o]):
        M[abs(d) - 1] = up[k] * (1 if d > 0 else -1)
    return M


def mat(A):
    return [[q(v) for v in row] for row in np.asarray(A)]


def vec(v):
    return [q(x) for x in v]


class Scene:
    def __init__(s, prior, kind, rigs, n, flat):
        rec = s.rec = types.Reconstruction()
        rec.reference = geo.TopocentricConverter(R.uniform(-60, 60), R.uniform(-180, 180), R.choice([0, 50.]))
        s.spher = True
        for c in ("c", "d"):
            cam = pygeometry.Camera.create_spherical()
            cam.id = c
            cam.width, cam.height = 4000, 2000
            rec.add_camera(cam)
        # inverse of the similarity to be found
        s.sc = 1.0 if rigs else R.choice([1.0, R.uniform(.1, 8)])
        s.A = R.choice([np.eye(3), randrot(), randrot()])
        s.b = np.array([R.uniform(-20, 20) for _ in range(3)]) * R.choice([0, 1])
        z = R.uniform(-30, 60)
        d = np.array([R.uniform(-1, 1), R.uniform(-1, 1)])
        d /= np.linalg.norm(d)
        s.pos, s.inst, s.up = [], [], {}
        yaw0 = R.uniform(-3, 3)
        base = np.array([R.uniform(-50, 50), R.uniform(-50, 50), z])
        if rigs:
            names = R.sample(["l", "r", "f", "front", "a1", "zz", "7"], 3)
            offs = [np.zeros(3), np.array([-.8, 0, 0]), np.array([1.3, 0, 0])]
            for j in R.sample(range(3), 3):
                rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(np.zeros(3), offs[j]), names[j]))
        for k in range(n):
            if kind == "line":
                p = base + np.append(d * (k * 13 + R.uniform(0, 5)), 0)
            elif kind == "same":
                p = base
            else:
                p = base + np.array([R.uniform(-60, 60), R.uniform(-60, 60), 0 if flat else R.uniform(-40, 40)])
            o = R.choice([1, 1, 3, 6, 8] + ([4] if prior == "no_roll" else []))
            if rigs:
                o = 1
            yaw = yaw0 if R.random() < .3 else R.uniform(-3, 3)
            M = store(look(prior, yaw), o)
            # to the frame of the reconstruction: x = A^T (y - b) / s
            pose = pygeometry.Pose()
            pose.set_rotation_matrix(M @ s.A)
            pose.set_origin(s.inv(p))
            ids = ["l%d" % k, "r%d" % k, "f%d" % k][:R.choice([2, 3])] if rigs else ["s%d" % k]
            if rigs:
                rec.add_rig_instance(pymap.RigInstance("i%d" % k))
            for j, i in enumerate(ids):
                cam = R.choice(["c", "d"])
                if rigs:
                    sh = rec.create_shot(i, cam, pose, names[j], "i%d" % k)
                else:
                    sh = rec.create_shot(i, cam, pose)
                if k == 0 or R.random() < .8:
                    sh.metadata.orientation.value = o
                    s.up[i] = DIRS[o]
            if rigs:
                rec.rig_instances["i%d" % k].pose = pose
            s.pos.append(p)
            s.inst.append(ids)
        for k in range(R.randrange(0, 5)):
            rec.create_point(str(k), s.inv(base + np.array([R.uniform(-50, 50) for _ in range(3)])))
        s.gcp, s.gcprow = [], []

    def inv(s, y):
        return s.A.T @ (np.asarray(y) - s.b) / s.sc

    def gps(s, noise, f=lambda cam, p: p, some=True):
        s.gpsrow = [[] for _ in s.inst]
        for k, ids in enumerate(s.inst):
            if some and R.random() < .15:
                continue
            have = ids if R.random() < .6 else ids[:1]
            js = [np.array([R.uniform(-.4, .4) for _ in range(3)]) for _ in have]
            js = [j - np.mean(js, axis=0) for j in js]
            for t, i in enumerate(have):
                sh = s.rec.shots[i]
                v = f(sh.camera.id, s.pos[k]) + js[t] + np.array([R.uniform(-noise, noise) for _ in range(3)])
                sh.metadata.gps_position.value = v
                sh.metadata.gps_accuracy.value = 5.0
                s.gpsrow[k].append(vec(v))

    def control(s, n, line=False):
        d = np.array([R.uniform(-1, 1), R.uniform(-1, 1), R.uniform(-.5, .5)])
        c = np.mean(s.pos, axis=0) + np.array([R.uniform(-10, 10), R.uniform(-10, 10), -30])
        for k in range(n):
            g = pymap.GroundControlPoint()
            g.id = "g%d" % k
            p = c + (d * (10 * k + 3) if line else np.array([R.uniform(-50, 50), R.uniform(-50, 50), R.uniform(-10, 10)]))
            la, lo, al = s.rec.reference.to_lla(*p)
            see = [i for ids in s.inst for i in ids if R.random() < .8]
            dirs = []
            for i in see:
                sh = s.rec.shots[i]
                v = s.inv(p) - sh.pose.get_origin()
                dirs.append(v / np.linalg.norm(v))
                o = pymap.GroundControlPointObservation()
                o.shot_id = i
                o.projection = sh.project(s.inv(p))
                g.add_observation(o)
            if R.random() < .3:
                o = pymap.GroundControlPointObservation()
                o.shot_id = "absent"
                o.projection = np.array([.1, .1])
                g.add_observation(o)
            cosm = min([a @ b for a in dirs for b in dirs] + [1])
            near = len(dirs) < 2 or cosm > 1 - 1e-9
            if not near and cosm > math.cos(math.radians(4)):
                continue
            lla = R.random() < .9
            if lla:
                g.lla = {"latitude": la, "longitude": lo, "altitude": al}
                g.has_altitude = True
            s.gcp.append(g)
            if not near and lla:
                s.gcprow.append(dict(o=vec(s.inv(p)), m=vec(p)))

    def snap(s):
        rec = s.rec
        pts = {k: np.array(p.coordinates) for k, p in rec.points.items()}
        shots = {k: (sh.pose.get_origin(), sh.pose.get_rotation_matrix()) for k, sh in rec.shots.items()}
        proj = [sh.project(p.coordinates) for _, sh in sorted(rec.shots.items()) for _, p in sorted(rec.points.items())]
        return pts, shots, proj, {k: i.pose.get_origin() for k, i in rec.rig_instances.items()}

    def moved(s, e, a, b, res):
        e["pts"] = [[vec(a[0][k]), vec(b[0][k])] for k in sorted(a[0])]
        e["shots"] = [dict(o=[vec(a[1][k][0]), vec(b[1][k][0])], R=[mat(a[1][k][1]), mat(b[1][k][1])], dirs=s.up.get(k, [])) for k in sorted(a[1])]
        e["proj"] = [vec(u) + vec(v) for u, v in zip(a[2], b[2]) if abs(u[0]) < .49]
        e["none"] = int(res is None)
        if res is not None:
            e["S"] = dict(s=q(res[0]), A=mat(res[1]), b=vec(res[2]))


NOS = dict(s=1000000, A=mat(np.eye(3)), b=[0, 0, 0])


def case(kind, fn, **k):
    e = dict(op=kind, exc="", S=NOS, tol=2500, none=0, pts=[], shots=[], proj=[])
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind=kind, events=[e]))


for n in range(inp["apply"]):
    s = Scene(R.choice(["vertical", "no_roll"]), "spread", R.random() < .5, R.randrange(1, 4), False)

    def app(e):
        a = s.snap()
        S = (R.choice([1.0, R.uniform(.2, 3)]), randrot(), np.array([R.uniform(-50, 50) for _ in range(3)]))
        align.apply_similarity(s.rec, *S)
        s.moved(e, a, s.snap(), S)
    case("apply", app)

for n in range(inp["align"]):
    prior = R.choice(["vertical", "horizontal", "no_roll"])
    method = R.choice(["auto", "auto", "naive", "orientation_prior"])
    kind = R.choice(["spread", "spread", "line", "same"])
    rigs = R.random() < .25
    cnt = R.choice([1, 2, 3, 4, 5, 6])
    level = method == "orientation_prior" or kind != "spread" or cnt < 4 or R.random() < .5
    s = Scene(prior, kind, rigs, cnt, level)
    noise = 0 if method == "orientation_prior" or level else R.choice([0, 1.5])
    s.gps(noise)
    if R.random() < .4 and cnt >= 2:
        s.control(R.randrange(1, 6), R.random() < .3)
    c = cfgm.default_config()
    c.update(align_method=method, align_orientation_prior=prior, bundle_use_gps=R.random() < .85, bundle_use_gcp=R.random() < .7)
    arg = R.random() < .9
    usegps = int(c["bundle_use_gps"] and arg)
    usegcp = int(c["bundle_use_gcp"])
    # leave out what is neither determined nor clearly undetermined
    X = [s.pos[k] for k in range(cnt) if s.gpsrow[k]] * usegps + [np.array(g["m"]) / 1e6 for g in s.gcprow] * usegcp
    X = np.array(X)
    if len(X) >= 3:
        sv = np.linalg.svd(X - X.mean(axis=0))[1]
        eff = "naive" if sv[1] > .04 * sv[0] else "line" if sv[1] < 1e-6 * max(sv[0], 1) else "mid"
    else:
        eff = "line"
    if eff == "mid":
        continue
    if len(X) == 2 and np.abs(X[0] - X[1]).max() < .02 and noise:
        continue
    uses_prior = method == "orientation_prior" or (method == "auto" and eff == "line")
    if uses_prior and (noise or not level):
        continue
    gz = [np.array(g["m"])[2] / 1e6 for g in s.gcprow] * usegcp
    if uses_prior:
        # in the horizontal plane the positions have to be clearly apart or the same
        d = max([np.linalg.norm(x[:2] - y[:2]) for x in X for y in X] + [0])
        if 1e-9 < d < 1:
            continue
        if d < 1e-9 and gz:
            continue
    if method == "naive" and eff == "line" and len(X) and noise:
        continue
    if method == "naive" and len(X) >= 2 and max(np.linalg.norm(x - y) for x in X for y in X) < 1e-9 and (noise or len(X) > 0 and any(np.linalg.norm(x - X[0]) > 0 for x in X)):
        continue

    def al(e):
        a = s.snap()
        e["insts"] = [dict(o=vec(a[3][s.rec.shots[ids[0]].rig_instance_id]), gps=s.gpsrow[k]) for k, ids in enumerate(s.inst)]
        res = align.align_reconstruction(s.rec, s.gcp, c, use_gps=arg)
        b = s.snap()
        for k, ids in enumerate(s.inst):
            e["insts"][k]["o2"] = vec(b[3][s.rec.shots[ids[0]].rig_instance_id])
        s.moved(e, a, b, res)
    case("align", al, method=method, prior=prior, usegps=usegps, usegcp=usegcp, rigs=int(rigs), noise=int(noise > 0), insts=[], gcp=s.gcprow)

for n in range(inp["bias"]):
    s = Scene("vertical", "spread", False, R.randrange(6, 10), False)
    cams = sorted({sh.camera.id for sh in s.rec.shots.values()})
    if any(sum(sh.camera.id == c for sh in s.rec.shots.values()) < 3 for c in cams):
        continue
    T = {c: (R.uniform(.8, 1.2), randrot(.5), np.array([R.uniform(-9, 9) for _ in range(3)])) for c in cams}
    s.gps(0, lambda cam, p: T[cam][0] * T[cam][1] @ p + T[cam][2], False)
    able = R.random() < .8
    if able:
        s.control(R.randrange(4, 7))
        if len(s.gcprow) < 3:
            continue
        sv = np.linalg.svd(np.array([g["m"] for g in s.gcprow]) / 1e6 - np.mean([g["m"] for g in s.gcprow], axis=0) / 1e6)[1]
        if sv[1] < .1 * sv[0]:
            continue
    ok = True
    for c in cams:
        P = np.array([s.pos[k] for k, ids in enumerate(s.inst) if s.rec.shots[ids[0]].camera.id == c])
        sv = np.linalg.svd(P - P.mean(axis=0))[1]
        ok = ok and sv[1] > .1 * sv[0]
    if not ok:
        continue
    c = cfgm.default_config()
    c.update(align_method=R.choice(["auto", "naive"]), bundle_compensate_gps_bias=True)

    def bi(e):
        a = s.snap()
        res = align.align_reconstruction(s.rec, s.gcp, c, bias_override=True)
        b = s.snap()
        s.moved(e, a, b, res)
        if res is not None:
            for k, ids in enumerate(s.inst):
                sh = s.rec.shots[ids[0]]
                e["biased"].append([vec(s.rec.biases[sh.camera.id].transform(sh.metadata.gps_position.value)), vec(sh.pose.get_origin())])
    case("bias", bi, able=int(able), gcp=s.gcprow, biased=[])
save_output(dict(cases=cases))
