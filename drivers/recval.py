"""Flatten reconstructions into (path, numbers, string) rows and build random ones."""
import numpy as np
from vcommon import *
from opensfm import pymap, pygeometry, types, geo

CAMTYPES = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial", "dual", "spherical"]


def make_camera(R, cid, ptype=None, wild=False):
    pt = ptype or R.choice(CAMTYPES)
    C = pygeometry.Camera
    u = (lambda s: R.uniform(-s, s))
    f = R.uniform(0.4, 1.6)
    ar = R.choice([1.0, 1.0, R.uniform(0.8, 1.2)])
    pp = np.array([u(0.05), u(0.05)])
    k = [u(0.1), u(0.05), u(0.02), u(0.01), u(0.005), u(0.002)]
    p = [u(0.005), u(0.005)]
    s = [u(0.003) for _ in range(4)]
    if pt == "perspective":
        c = C.create_perspective(f, k[0], k[1])
    elif pt == "brown":
        c = C.create_brown(f, ar, pp, np.array(k[:3] + p))
    elif pt == "fisheye":
        c = C.create_fisheye(f, k[0], k[1])
    elif pt == "fisheye_opencv":
        c = C.create_fisheye_opencv(f, ar, pp, np.array(k[:4]))
    elif pt == "fisheye62":
        c = C.create_fisheye62(f, ar, pp, np.array(k[:6] + p))
    elif pt == "fisheye624":
        c = C.create_fisheye624(f, ar, pp, np.array(k[:6] + p + s))
    elif pt == "radial":
        c = C.create_radial(f, ar, pp, np.array(k[:2]))
    elif pt == "simple_radial":
        c = C.create_simple_radial(f, ar, pp, k[0])
    elif pt == "dual":
        c = C.create_dual(R.uniform(0, 1), f, k[0], k[1])
    else:
        c = C.create_spherical()
    c.id = cid
    c.width, c.height = R.choice([(4000, 3000), (1920, 1080), (640, 640), (600, 800)])
    return c


def rand_pose(R, t=20.0):
    a = np.array([R.gauss(0, 1) for _ in range(3)])
    a = a / np.linalg.norm(a) * R.uniform(0, 3.0)
    return pygeometry.Pose(a, np.array([R.uniform(-t, t) for _ in range(3)]))


def nums(v):
    return [q(x) for x in np.asarray(v, dtype=float).ravel()]


def toks(v):
    return ",".join(tok(x) for x in np.asarray(v, dtype=float).ravel())


def pose_nums(p):
    return nums(p.get_rotation_matrix()) + nums(p.translation)


def camera_rows(c, path):
    rows = [[path + "/type", [], c.projection_type], [path + "/size", [c.width, c.height], c.id]]
    for k, v in c.get_parameters_map().items():
        rows.append([path + "/" + str(k).split(".")[-1], nums(v), ""])
    return rows


def md_rows(m, path):
    rows = []
    for n in ("orientation", "capture_time", "gps_accuracy", "gps_position", "gravity_down", "compass_angle", "compass_accuracy", "sequence_key"):
        v = getattr(m, n)
        if v.has_value:
            rows.append([path + "/" + n, [], v.value if isinstance(v.value, str) else toks(v.value)])
    return rows


def shot_rows(sh, path, full=True):
    rows = [[path + "/pose", pose_nums(sh.pose), ""], [path + "/camera", [], sh.camera.id],
            [path + "/rig", [], sh.rig_instance_id + "|" + sh.rig_camera_id],
            [path + "/scale", [], tok(sh.scale)], [path + "/merge_cc", [int(sh.merge_cc)], ""],
            [path + "/covariance", [], toks(sh.covariance)]]
    if full:
        rows += [[path + "/vertices", [], toks(sh.mesh.vertices)], [path + "/faces", [], toks(sh.mesh.faces)]]
    return rows + md_rows(sh.metadata, path)


def rec_rows(rec, mesh=True, color=True, rigs="all"):
    rows = []
    for i, c in rec.cameras.items():
        rows += camera_rows(c, "camera/" + i)
    for i, b in rec.biases.items():
        rows.append(["bias/" + i, nums(b.translation) + nums(b.rotation) + nums(b.scale), ""])
    used_rc = {s.rig_camera_id for s in list(rec.shots.values()) + list(rec.pano_shots.values())}
    used_ri = {s.rig_instance_id for s in list(rec.shots.values()) + list(rec.pano_shots.values())}
    for i, r in rec.rig_cameras.items():
        if rigs == "all" or i in used_rc:
            rows.append(["rigcam/" + i, pose_nums(r.pose), ""])
    for i, r in rec.rig_instances.items():
        if rigs == "all" or i in used_ri:
            rows.append(["riginst/" + i, pose_nums(r.pose), ";".join("%s:%s" % kv for kv in sorted(r.rig_camera_ids.items()))])
    for i, s in rec.shots.items():
        rows += shot_rows(s, "shot/" + i, mesh)
    for i, s in rec.pano_shots.items():
        rows += shot_rows(s, "pano/" + i, mesh)
    for i, p in rec.points.items():
        rows.append(["point/" + i, nums(p.coordinates), ",".join(str(int(x)) for x in p.color) if color else ""])
    ref = rec.reference
    rows.append(["reference", [], "%s %s %s" % (tok(ref.lat), tok(ref.lon), tok(ref.alt))])
    return rows


def rand_metadata(R):
    m = pymap.ShotMeasurements()
    if R.random() < .5:
        m.orientation.value = R.randrange(1, 9)
    if R.random() < .5:
        m.capture_time.value = R.choice([0.0, 1.5e9 + R.random(), 1234.5])
    if R.random() < .5:
        m.gps_accuracy.value = R.choice([0.0, 1.0, R.uniform(0, 50)])
    if R.random() < .5:
        m.gps_position.value = np.array([R.uniform(-1e3, 1e3), R.uniform(-1e3, 1e3), R.choice([0.0, R.uniform(-99, 999)])])
    if R.random() < .5:
        m.gravity_down.value = np.array([R.uniform(-1, 1) for _ in range(3)])
    if R.random() < .5:
        m.compass_angle.value = R.choice([0.0, R.uniform(0, 360)])
    if R.random() < .5:
        m.compass_accuracy.value = R.choice([0.0, R.uniform(0, 90)])
    if R.random() < .5:
        m.sequence_key.value = R.choice(["", "seq-1", "ünïcode"])
    return m


def dress_shot(R, sh):
    sh.metadata = rand_metadata(R)
    if R.random() < .5:
        sh.scale = R.choice([0.0, 1.0, R.uniform(0, 3)])
    if R.random() < .5:
        sh.merge_cc = R.randrange(0, 100)
    if R.random() < .4:
        sh.covariance = np.array([[R.uniform(-1, 1) for _ in range(6)] for _ in range(6)])
    if R.random() < .4:
        n = R.randrange(1, 5)
        sh.mesh.vertices = np.array([[R.uniform(-9, 9) for _ in range(3)] for _ in range(n)])
        sh.mesh.faces = np.array([[R.randrange(n) for _ in range(3)] for _ in range(R.randrange(1, 4))])


def rand_rec(R, nshots=None, observations=False, rigs=True, panos=True, dress=True):
    rec = types.Reconstruction()
    cams = ["cam %d" % i if R.random() < .3 else "v2 ünknown %d" % i for i in range(R.randrange(1, 4))]
    for c in cams:
        rec.add_camera(make_camera(R, c))
        if R.random() < .5:
            rec.set_bias(c, pygeometry.Similarity(np.array([R.uniform(-1, 1) for _ in range(3)]),
                                                  np.array([R.uniform(-9, 9) for _ in range(3)]), R.uniform(.5, 2)))
    n = R.randrange(0, 7) if nshots is None else nshots
    sh = 0
    while sh < n:
        if rigs and R.random() < .4:
            inst = "instance%d" % sh
            k = R.randrange(1, 4)
            rec.add_rig_instance(pymap.RigInstance(inst))
            rec.rig_instances[inst].pose = rand_pose(R)
            for j in range(k):
                rc = "rigcam%d" % j
                if rc not in rec.rig_cameras:
                    rec.add_rig_camera(pymap.RigCamera(rand_pose(R, 1.0), rc))
                s = rec.create_shot("shot %d.jpg" % sh, R.choice(cams), rig_camera_id=rc, rig_instance_id=inst)
                if dress:
                    dress_shot(R, s)
                sh += 1
        else:
            s = rec.create_shot("shot %d.jpg" % sh, R.choice(cams), rand_pose(R))
            if dress:
                dress_shot(R, s)
            sh += 1
    if panos:
        for j in range(R.choice([0, 0, 1, 2])):
            s = rec.create_pano_shot("pano %d" % j, R.choice(cams), rand_pose(R))
            if dress:
                dress_shot(R, s)
    for j in range(R.randrange(0, 8)):
        p = rec.create_point(str(j), np.array([R.uniform(-100, 100) for _ in range(3)]))
        p.color = np.array([R.randrange(256) for _ in range(3)])
    if R.random() < .7:
        rec.reference = geo.TopocentricConverter(R.uniform(-80, 80), R.uniform(-179, 179), R.choice([0.0, R.uniform(-50, 4000)]))
    if observations:
        for s in rec.shots:
            for f, p in enumerate(rec.points):
                if R.random() < .5:
                    rec.add_observation(s, p, pymap.Observation(R.uniform(-.5, .5), R.uniform(-.5, .5), .01, 1, 2, 3, f, 4, 5))
    return rec
