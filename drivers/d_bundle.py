"""Bundle adjustment: global, local and of poses; the objective around its result; neighborhoods."""
import math
import sys
import copy
import cv2
import numpy as np
from vcommon import *
from recval import make_camera
from opensfm import pygeometry, pymap, pysfm, types, geo, config as config_mod, reconstruction as orec

inp = load_input()
R = rng("bundle")
EV = []
REF = geo.TopocentricConverter(10, 20, 30)


def case(op, f, **k):
    e = dict(op=op, exc="", **k)
    try:
        f(e)
    except Exception as ex:
        e["exc"] = exc_name(ex)
    EV.append(e)
    progress(e)


def g3(s=1.):
    return np.array([R.gauss(0, 1) for _ in range(3)]) * s


def rodr(v):
    return cv2.Rodrigues(np.asarray(v, float))[0]


def nano(v):
    return [int(max(-2000000000, min(2000000000, round(float(x) * 1e9)))) for x in np.ravel(v)]


def vec(v, s=1000000):
    return [q(float(x), s) for x in np.ravel(v)]


def sane(v):
    return bool(np.all(np.isfinite(v)) and np.abs(v).max() < 2000)


CAMS = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial", "spherical"]


def observe(cam, b):
    if cam.projection_type != "spherical" and b[2] < .25 * np.linalg.norm(b):
        return None
    p = cam.project(b)
    back = cam.pixel_bearing(p)
    if not np.all(np.isfinite(p)) or np.linalg.norm(back - b / np.linalg.norm(b)) > 1e-7:
        return None
    return p


SD = {"focal": "exif_focal_sd", "aspect_ratio": "aspect_ratio_sd", "cx": "principal_point_sd", "cy": "principal_point_sd", "k1": "radial_distortion_k1_sd", "k2": "radial_distortion_k2_sd",
      "k3": "radial_distortion_k3_sd", "k4": "radial_distortion_k4_sd", "p1": "tangential_distortion_p1_sd", "p2": "tangential_distortion_p2_sd"}


class Scene:
    def __init__(self, what):
        self.what = what
        self.exact = R.random() < .25
        self.cfg = c = config_mod.default_config()
        c["processes"] = R.choice([1, 1, 2])
        c["loss_function"] = R.choice(["SoftLOneLoss", "SoftLOneLoss", "TrivialLoss", "HuberLoss", "CauchyLoss", "ArctanLoss"])
        c["loss_function_threshold"] = R.choice([1, 1, 2., 3.])
        c["bundle_use_gps"] = R.random() < .7
        c["bundle_use_gcp"] = R.random() < .7
        c["optimize_camera_parameters"] = R.random() < .6
        c["bundle_analytic_derivatives"] = R.random() < .6
        c["align_orientation_prior"] = R.choice(["vertical", "horizontal", "no_roll"])
        c["align_method"] = R.choice(["orientation_prior", "naive", "naive"])
        c["gcp_global_weight"] = R.choice([.01, .1])
        c["bundle_compensate_gps_bias"] = what == "bundle" and R.random() < .2
        c["bundle_max_iterations"] = 200
        for k in sorted(set(SD.values())):
            c[k] = R.choice([.01, .01, .003, .03])
        c["rig_translation_sd"], c["rig_rotation_sd"] = R.choice([.1, .03]), R.choice([.1, .03])
        c["gcp_horizontal_sd"], c["gcp_vertical_sd"] = R.choice([.01, .05]), R.choice([.1, .02])
        c["local_bundle_radius"], c["local_bundle_min_common_points"], c["local_bundle_max_shots"] = R.choice([1, 2, 2, 3]), R.choice([1, 2, 3, 4]), 30
        self.big = what == "bundle" and R.random() < .08
        G = {"vertical": rodr([math.pi, 0, 0]), "horizontal": rodr([math.pi / 2, 0, 0])}.get(c["align_orientation_prior"], rodr(g3(.5)))
        # camera axes in the world: columns; horizontal: camera y is world -z
        if c["align_orientation_prior"] == "horizontal":
            G = np.array([[1, 0, 0], [0, 0, 1], [0, -1, 0]], float)
        self.G = G
        rec = self.rec = types.Reconstruction()
        rec.reference = REF
        types_ = CAMS if not c["optimize_camera_parameters"] else [t for t in CAMS if t not in ("fisheye62", "fisheye624")]
        self.wide = R.random() < .12
        if self.wide:  # the outer distortion shows only in wide pictures
            types_ = ["fisheye_opencv"]
            for k in sorted(set(SD.values())):
                c[k] = .003
            c["radial_distortion_k4_sd"] = .03
        self.cams = ["c%d" % i for i in range(R.choice([1, 1, 2]))]
        for i in self.cams:
            rec.add_camera(make_camera(R, i, R.choice(types_)))
        n = R.choice([3, 4, 5]) if what != "local" else R.choice([5, 6, 8])
        step = .7
        if self.big:
            n = 12
            step = .2
        k = 0
        self.rcs = []
        while k < n:
            if self.big or R.random() < .35:
                m = 2 if self.big else R.choice([1, 2, 3])
                inst = "inst%d" % k
                for j in range(m):
                    if "r%d" % j not in self.rcs:
                        self.rcs.append("r%d" % j)
                        rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(g3(.05), g3(.2)) if R.random() < .8 else pygeometry.Pose(), "r%d" % j))
                rec.add_rig_instance(pymap.RigInstance(inst))
                for j in range(m):
                    rec.create_shot("s%d%s" % (k, "abc"[j]), R.choice(self.cams), rig_camera_id="r%d" % j, rig_instance_id=inst)
                rec.rig_instances[inst].pose = self.pose(k, step)
            else:
                rec.create_shot("s%d" % k, R.choice(self.cams), self.pose(k, step))
            k += 1
        # points and observations
        self.level = 0 if self.exact else R.choice([.3, .7, 1.])
        npts = R.choice([8, 10, 14]) if what != "local" else R.choice([12, 20])
        depths = R.random() < .25
        self.obs = []                     # (shot, point, xy, sd, depth or None)
        for i in range(npts):
            X = G @ np.array([R.uniform(-.7, n * step), R.uniform(-1, 1), R.uniform(3, 6)]) if not self.wide else G @ np.array([R.uniform(-3, 3 + n * step), R.uniform(-4, 4), R.uniform(2, 4)])
            pid = "p%d" % i
            rec.create_point(pid, X)
            lone = R.random() < .05
            for s in sorted(rec.shots.keys()):
                sh = rec.shots[s]
                reach = what == "local" and abs((G.T @ (sh.pose.get_origin() - X))[0]) > R.choice([.8, 1.5])
                if lone or reach or R.random() < .1:
                    continue
                b = sh.pose.transform(X)
                p = observe(sh.camera, b)
                if p is None:
                    continue
                sd = R.choice([.002, .004, .01])
                z = p + np.array([R.gauss(0, 1), R.gauss(0, 1)]) * sd * self.level * (1 if sh.camera.projection_type != "spherical" else .16)
                if not self.exact and R.random() < .03:
                    z = z + np.array([R.choice([-1, 1]), 0]) * sd * R.uniform(3, 7) * (1 if sh.camera.projection_type != "spherical" else .16)
                d = None
                if depths and R.random() < .5:
                    radial = R.random() < .5
                    dsd = R.choice([.1, .5])
                    d = ((np.linalg.norm(b) if radial else b[2]) + R.gauss(0, 1) * dsd * self.level, radial, dsd)
                o = pymap.Observation(z[0], z[1], sd, 10 * i, 2, 3, 100 * i + 1)
                if d:
                    o.depth_prior = pymap.Depth(value=d[0], is_radial=d[1], std_deviation=d[2])
                rec.add_observation(s, pid, o)
                self.obs.append((s, pid, z, sd, d))
        # positions
        self.gps = R.random() < .7
        for s in sorted(rec.shots.keys()):
            sh = rec.shots[s]
            if self.gps and R.random() < .85:
                acc = R.choice([.05, .2, 1.])
                sh.metadata.gps_position.value = rec.rig_instances[sh.rig_instance_id].pose.get_origin() + g3(acc * self.level)
                if R.random() < .9:
                    sh.metadata.gps_accuracy.value = acc
        # control points
        self.gcp = []
        if R.random() < .5:
            for i in range(R.choice([1, 2, 3])):
                X = G @ np.array([R.uniform(0, n * step), R.uniform(-.8, .8), R.uniform(3, 6)])
                g = pymap.GroundControlPoint()
                g.id = "g%d" % i
                seen = []
                for s in R.sample(sorted(rec.shots.keys()), min(len(rec.shots), R.choice([0, 1, 2, 3, 3]))):
                    sh = rec.shots[s]
                    p = observe(sh.camera, sh.pose.transform(X))
                    if p is not None:
                        o = pymap.GroundControlPointObservation()
                        o.shot_id, o.projection = s, p + np.array([R.gauss(0, 1), R.gauss(0, 1)]) * .001 * self.level
                        g.add_observation(o)
                        seen.append((s, np.array(o.projection)))
                if R.random() < .1:
                    o = pymap.GroundControlPointObservation()
                    o.shot_id, o.projection = "elsewhere", np.array([.1, .1])
                    g.add_observation(o)
                alt = R.random() < .7
                lla = R.random() < .8
                if lla:
                    lat, lon, a = REF.to_lla(*(X + g3(.02 * self.level)))
                    g.lla = {"latitude": lat, "longitude": lon, "altitude": a} if alt else {"latitude": lat, "longitude": lon}
                    g.has_altitude = alt
                self.gcp.append((g, seen, X, alt and lla, lla))
        # priors are near the start
        self.cam_priors = {i: copy.deepcopy(rec.cameras[i]) for i in self.cams}
        self.rig_priors = {i: pymap.RigCamera(pygeometry.Pose(c_.pose.rotation, c_.pose.translation), i) for i, c_ in rec.rig_cameras.items()}
        if not self.exact:
            for i in self.cams:
                p = self.cam_priors[i]
                for name, v in p.get_parameters_map().items():
                    nm = str(name).split(".")[-1]
                    if nm in SD or True:
                        if nm.startswith(("k", "p")) and nm[1:].isdigit() and int(nm[1:]) < 5 and R.random() < .5:
                            p.set_parameter_value(name, v + R.choice([-.02, .02]) if self.wide and nm == "k4" else v + R.uniform(-.005, .005) * (0 if self.wide else 1))
                        elif nm == "focal":
                            p.set_parameter_value(name, v * R.uniform(.99, 1.01))
            for i in self.rig_priors:
                if i in self.rcs:
                    z = rec.rig_cameras[i].pose
                    self.rig_priors[i] = pymap.RigCamera(pygeometry.Pose(z.rotation + g3(.01), z.translation + g3(.02)), i)
        for b in self.cams:
            if c["bundle_compensate_gps_bias"] and R.random() < .7:
                rec.set_bias(b, pygeometry.Similarity(g3(.02), g3(.1), R.uniform(.97, 1.03)))
        # start away from the truth
        amount = R.choice([0, .3, 1.])
        for i in sorted(rec.rig_instances.keys()):
            p = rec.rig_instances[i].pose
            o = p.get_origin()
            z = pygeometry.Pose(cv2.Rodrigues(rodr(g3(.006 * amount)) @ p.get_rotation_matrix())[0].ravel())
            z.set_origin(o + g3(.03 * amount))
            rec.rig_instances[i].pose = z
        for i in sorted(rec.points.keys()):
            rec.points[i].coordinates = rec.points[i].coordinates + g3(.04 * amount)

    def pose(self, k, step):
        Rc = rodr(g3(.08)) @ self.G.T
        if self.cfg["align_orientation_prior"] == "vertical" and R.random() < .5:
            Rc = self.G.T
        p = pygeometry.Pose(cv2.Rodrigues(Rc)[0].ravel())
        p.set_origin(self.G @ (np.array([k * step, 0, 0]) + g3(.2)))
        return p

    # ------------------------------------------------------------- values
    def index(self):
        rec = self.rec
        self.S, self.I, self.P = sorted(rec.shots.keys()), sorted(rec.rig_instances.keys()), sorted(rec.points.keys())
        self.C, self.RC = sorted(rec.cameras.keys()), sorted(rec.rig_cameras.keys())
        self.shot_obs = {s: [] for s in self.S}
        self.point_obs = {p: [] for p in self.P}
        self.oi = {}
        for k, o in enumerate(self.obs):
            self.shot_obs[o[0]].append(k)
            self.point_obs[o[1]].append(k)
        self.gobs = [(gi, s, z) for gi, g in enumerate(self.gcp) for s, z in g[1]]

    def residual(self, s, X, z):
        sh = self.rec.shots[s]
        if sh.camera.projection_type == "spherical":
            b = sh.pose.transform(X)
            lon, lat = z[0] * 2 * math.pi, -z[1] * 2 * math.pi
            return b / np.linalg.norm(b) - np.array([math.cos(lat) * math.sin(lon), -math.sin(lat), math.cos(lat) * math.cos(lon)])
        return sh.project(X) - z

    def obs_value(self, k):
        s, p, z, sd, d = self.obs[k]
        X = self.rec.points[p].coordinates
        out = [k + 1] + nano(self.residual(s, X, z))
        if d:
            b = self.rec.shots[s].pose.transform(X)
            return out, [k + 1] + vec([(np.linalg.norm(b) if d[1] else b[2]) - d[0]])
        return out, None

    def values(self, shots=(), points=(), insts=(), cams=(), rigs=(), biases=(), gcps=()):
        """values of the objective's terms that depend on the given things"""
        rec = self.rec
        ks = sorted(set(k for s in shots for k in self.shot_obs[s]) | set(k for p in points for k in self.point_obs[p]))
        o, d = [], []
        for k in ks:
            a, b = self.obs_value(k)
            o.append(a)
            if b:
                d.append(b)
        up = []
        if self.cfg["align_orientation_prior"] in ("vertical", "horizontal"):
            u = np.array([0, 0, -1.]) if self.cfg["align_orientation_prior"] == "vertical" else np.array([0, -1., 0])
            up = [[self.S.index(s) + 1] + nano(rec.shots[s].pose.get_rotation_matrix().T @ u - np.array([0, 0, 1.])) for s in shots]
        g = []
        for j, (gi, s, z) in enumerate(self.gobs):
            if s in shots or gi in gcps:
                g.append([j + 1] + nano(self.residual(s, self.star[gi], z)))
        cam = []
        for c in cams:
            pm, pr = rec.cameras[c].get_parameters_map(), self.cam_priors[c].get_parameters_map()
            vals = []
            for n in sorted(pm, key=str):
                nm = str(n).split(".")[-1]
                if nm in SD:
                    vals.append([1 if nm in ("focal", "aspect_ratio") else 0, q(pm[n] / pr[n] if nm in ("focal", "aspect_ratio") else pm[n] - pr[n]), q(self.cfg[SD[nm]])])
            cam.append(dict(i=self.C.index(c) + 1, v=vals))
        rig = []
        for c in rigs:
            a, b = rec.rig_cameras[c].pose, self.rig_priors[c].pose
            rig.append([self.RC.index(c) + 1] + vec(-rotv(a) + rotv(b)) + vec(a.get_origin() - b.get_origin()))
        bias = []
        for c in biases:
            b = rec.biases[c]
            bias.append(dict(i=self.C.index(c) + 1, R=[vec(x) for x in rodr(b.rotation)], t=vec(b.translation), s=q(b.scale)))
        return dict(o=o, d=d, up=up, g=g, cam=cam, rig=rig, bias=bias, org=[[self.I.index(i) + 1] + vec(rec.rig_instances[i].pose.get_origin()) for i in insts],
                    gx=[[gi + 1] + vec(self.star[gi]) for gi in gcps])

    def probe(self, what, i, k, v):
        return dict(w=what, i=i, k=k, v=v)

    def free(self):
        """the steps around the result"""
        rec, out = self.rec, []
        h = .25 if self.cfg["loss_function"] in ("ArctanLoss", "CauchyLoss") else 1.       # not convex: stay close
        for n, i in enumerate(self.I):
            inst = rec.rig_instances[i]
            p = pygeometry.Pose(inst.pose.rotation, inst.pose.translation)
            shots = sorted(inst.keys())
            for k in range(6):
                for sg in (-1, 1):
                    u = np.zeros(3)
                    u[k % 3] = sg
                    if k < 3:
                        z = pygeometry.Pose(cv2.Rodrigues(rodr(u * .003 * h) @ p.get_rotation_matrix())[0].ravel())
                        z.set_origin(p.get_origin())
                    else:
                        z = pygeometry.Pose(p.rotation)
                        z.set_origin(p.get_origin() + u * .015 * h)
                    inst.pose = z
                    out.append(self.probe("inst", n + 1, k, self.values(shots=shots, insts=[i])))
            inst.pose = p
        for n in R.sample(range(len(self.P)), min(4 if self.big else 7, len(self.P))):
            pt = rec.points[self.P[n]]
            X = np.array(pt.coordinates)
            for k in range(3):
                for sg in (-1, 1):
                    Y = X.copy()
                    Y[k] += sg * .02 * h
                    pt.coordinates = Y
                    out.append(self.probe("point", n + 1, k, self.values(points=[self.P[n]])))
            pt.coordinates = X
        for n, c in enumerate(self.C):
            cam = rec.cameras[c]
            for name, v in sorted(cam.get_parameters_map().items(), key=lambda x: str(x[0])):
                nm = str(name).split(".")[-1]
                if nm not in SD:
                    continue
                for sg in (-1, 1, -.1, .1) if self.wide and nm in ("k3", "k4") else (-1, 1):
                    cam.set_parameter_value(name, v * (1 + sg * .004 * h) if nm in ("focal", "aspect_ratio") else v + sg * .004 * h)
                    out.append(self.probe("cam", n + 1, 0, self.values(shots=[s for s in self.S if rec.shots[s].camera.id == c], cams=[c])))
                cam.set_parameter_value(name, v)
        for n, c in enumerate(self.RC):
            rc = rec.rig_cameras[c]
            if c in self.C or not self.big:
                continue
            p = pygeometry.Pose(rc.pose.rotation, rc.pose.translation)
            for k in range(6):
                for sg in (-1, 1):
                    u = np.zeros(3)
                    u[k % 3] = sg
                    z = pygeometry.Pose()
                    if k < 3:
                        z = pygeometry.Pose(cv2.Rodrigues(rodr(u * .003 * h) @ p.get_rotation_matrix())[0].ravel())
                        z.set_origin(p.get_origin())
                    else:
                        z = pygeometry.Pose(p.rotation)
                        z.set_origin(p.get_origin() + u * .015 * h)
                    rc.pose = z
                    out.append(self.probe("rig", n + 1, k, self.values(shots=[s for s in self.S if rec.shots[s].rig_camera_id == c], rigs=[c])))
            rc.pose = p
        if self.cfg["bundle_compensate_gps_bias"]:
            for n, c in enumerate(self.C):
                b = rec.biases[c]
                for k in range(3):
                    for sg in (-1, 1):
                        t = np.array(b.translation)
                        t[k] += sg * .05 * h
                        rec.set_bias(c, pygeometry.Similarity(b.rotation, t, b.scale))
                        out.append(self.probe("bias", n + 1, k, self.values(biases=[c])))
                rec.set_bias(c, b)
        for gi in range(len(self.gcp)):
            X = self.star[gi].copy()
            for k in range(3):
                for sg in (-1, 1):
                    self.star[gi] = X.copy()
                    self.star[gi][k] += sg * .01 * h
                    out.append(self.probe("gcp", gi + 1, k, self.values(gcps=[gi])))
            self.star[gi] = X
        return out

    def all(self):
        return self.values(self.S, self.P, self.I, self.C, self.RC, self.C, range(len(self.gcp)))

    def frame(self):
        rec = self.rec
        E = 100000000
        return dict(insts=[vec(rec.rig_instances[i].pose.get_rotation_matrix(), E) + vec(rec.rig_instances[i].pose.get_origin(), E) for i in self.I],
                    points=[vec(rec.points[p].coordinates, E) for p in self.P],
                    cams=[vec(list(v for _, v in sorted(rec.cameras[c].get_parameters_map().items(), key=lambda x: str(x[0]))) or [0], E) for c in self.C],
                    rigs=[vec(rec.rig_cameras[c].pose.get_rotation_matrix(), E) + vec(rec.rig_cameras[c].pose.get_origin(), E) for c in self.RC],
                    bias=[vec(np.concatenate([rec.biases[c].rotation, rec.biases[c].translation, [rec.biases[c].scale]]), E) for c in self.C],
                    rest=tok_rest(rec))

    def stars(self, weight):
        """the best position of every control point, given the shots"""
        from scipy.optimize import least_squares
        c = self.cfg
        self.star = []
        for gi, (g, seen, X, alt, lla) in enumerate(self.gcp):
            prior = None
            if g.lla:
                prior = np.array(REF.to_topocentric(g.lla["latitude"], g.lla["longitude"], g.lla.get("altitude", 0)))
            sds = np.array([c["gcp_horizontal_sd"], c["gcp_horizontal_sd"], c["gcp_vertical_sd"]]) / weight
            a = c["loss_function_threshold"]
            use = [(s, z) for s, z in seen if s in self.inba]

            def rho(s2):
                t = s2 / a / a
                return {"TrivialLoss": s2, "HuberLoss": s2 if t <= 1 else 2 * a * math.sqrt(s2) - a * a, "SoftLOneLoss": 2 * a * a * (math.sqrt(1 + t) - 1), "CauchyLoss": a * a * math.log1p(t), "ArctanLoss": a * math.atan2(s2, a)}[c["loss_function"]]

            def f(Y):
                r = [math.sqrt(max(0, rho(float(np.sum((self.residual(s, Y, z) / (.001 / weight)) ** 2))))) for s, z in use]
                if prior is not None:
                    w = (Y - prior) / sds
                    r += list(w if alt else w[:2])
                return r
            Y = X.copy()
            if len(use) or prior is not None:
                from scipy.optimize import minimize
                Y = prior.copy() if prior is not None and alt else X.copy()
                cost = lambda Z: sum(v * v for v in f(Z))
                Y = minimize(cost, Y, method="Nelder-Mead", options=dict(xatol=1e-9, fatol=1e-12, maxiter=4000, maxfev=4000, initial_simplex=[Y, Y + [.05, 0, 0], Y + [0, .05, 0], Y + [0, 0, .05]])).x
            self.star.append(np.array(Y))


def rotv(p):
    return -cv2.Rodrigues(p.get_rotation_matrix())[0].ravel() * 1.0


def tok_rest(rec):
    """everything that no adjustment may change"""
    import hashlib
    rows = []
    for s in sorted(rec.shots.keys()):
        sh = rec.shots[s]
        m = sh.metadata
        rows.append((s, sh.camera.id, sh.rig_instance_id, sh.rig_camera_id, m.gps_position.has_value and [tok(x) for x in m.gps_position.value], m.gps_accuracy.has_value and tok(m.gps_accuracy.value)))
        for lm in sorted(sh.get_valid_landmarks(), key=lambda l: l.id):
            o = sh.get_landmark_observation(lm)
            rows.append((lm.id, o.id, tok(o.point[0]), tok(o.point[1]), tok(o.scale), [int(x) for x in o.color]))
    for p in sorted(rec.points.keys()):
        rows.append((p, [int(x) for x in rec.points[p].color], sorted(s.id for s in rec.points[p].get_observations())))
    for c in sorted(rec.cameras.keys()):
        cam = rec.cameras[c]
        rows.append((c, cam.projection_type, cam.width, cam.height))
    for i in sorted(rec.rig_instances.keys()):
        rows.append((i, sorted(rec.rig_instances[i].rig_camera_ids.items())))
    rows.append((sorted(rec.rig_cameras.keys()), tok(rec.reference.lat), tok(rec.reference.lon), tok(rec.reference.alt)))
    return hashlib.sha1(repr(rows).encode()).hexdigest()


def neighbors(obs, I, mn, mx, inst):
    """plain reading, for choosing the weight of the control points only"""
    pts = [p for p in obs if set(obs[p]) & I]
    c = {}
    for p in pts:
        for s in obs[p]:
            if s not in I:
                c[s] = c.get(s, 0) + 1
    out = set()
    for s, v in sorted(c.items(), key=lambda x: -x[1])[:mx]:
        if v >= mn:
            out |= inst[s]
    return out


def one(what):
    sc = Scene(what)
    sc.index()
    rec, c = sc.rec, sc.cfg
    listed = sorted(R.sample(sc.S, R.randrange(1, len(sc.S) + 1)))
    if R.random() < .5:
        listed = sorted(set(x for s in listed for x in rec.rig_instances[rec.shots[s].rig_instance_id].keys()))
    center = R.choice(sc.S)
    shots = [dict(id=s, inst=sc.I.index(rec.shots[s].rig_instance_id) + 1, rc=sc.RC.index(rec.shots[s].rig_camera_id) + 1, cam=sc.C.index(rec.shots[s].camera.id) + 1,
                  gps=vec(rec.shots[s].metadata.gps_position.value) if rec.shots[s].metadata.gps_position.has_value else [],
                  acc=q(rec.shots[s].metadata.gps_accuracy.value) if rec.shots[s].metadata.gps_accuracy.has_value else -1) for s in sc.S]
    # the shots that take part
    sc.inba, total_obs = set(sc.S), len(sc.obs)
    if what == "local":
        per = {p: [o[0] for o in sc.obs if o[1] == p] for p in sc.P}
        inst = {s: set(rec.rig_instances[rec.shots[s].rig_instance_id].keys()) for s in sc.S}
        I = set(inst[center])
        for _ in range(1, c["local_bundle_radius"]):
            I |= neighbors(per, I, c["local_bundle_min_common_points"], 30 - len(I), inst)
        B = neighbors(per, I, 1, 10 ** 6, inst)
        sc.inba = I | B
        pts = {o[1] for o in sc.obs if o[0] in I}
        total_obs = sum(1 for o in sc.obs if o[1] in pts)
    dominant = len({rec.shots[s].rig_instance_id for s in sc.inba}) + total_obs
    tri = []
    for g in sc.gcp:
        dirs = [rec.shots[s].pose.get_rotation_matrix().T @ rec.shots[s].camera.pixel_bearing(z) for s, z in g[1]]
        tri.append(int(max([math.acos(max(-1, min(1, float(a @ b)))) for a in dirs for b in dirs] or [0]) > .0018))
    total = sum((1 if t or g[4] else 0) + sum(1 for s, _ in g[1] if s in sc.inba) for t, g in zip(tri, sc.gcp))
    weight = c["gcp_global_weight"] * dominant / max(1, total)

    def go(e):
        e["before"] = sc.frame()
        sc.stars(weight)
        e["base0"] = sc.all()
        rep, ids = {}, []
        if what == "bundle":
            rep = orec.bundle(rec, sc.cam_priors, sc.rig_priors, [g[0] for g in sc.gcp], c)
            e["num"] = [rep["num_images"], rep["num_points"], rep["num_reprojections"]]
        elif what == "local":
            ids, rep = orec.bundle_local(rec, sc.cam_priors, sc.rig_priors, [g[0] for g in sc.gcp], center, c)
            e["num"] = [rep["num_interior_images"], rep["num_boundary_images"], rep["num_other_images"], rep["num_points"], rep["num_reprojections"]]
        else:
            rep = orec.bundle_shot_poses(rec, set(listed), sc.cam_priors, sc.rig_priors, c)
        e["conv"] = int("Termination: CONVERGENCE" in rep["brief_report"])
        e["ids"] = sorted(sc.P.index(i) + 1 for i in ids)
        e["after"] = sc.frame()
        for n, p in enumerate(sc.P):
            for s, v in sorted(rec.points[p].reprojection_errors.items()):
                e["errs"].append([n + 1, sc.S.index(s) + 1] + nano(v))
        sc.stars(weight)
        e["base"] = sc.all()
        if all(sane(rec.rig_instances[i].pose.get_origin()) for i in sc.I):
            e["probes"] = sc.free()
    case("adjust", go, what=what, conv=0, exact=int(sc.exact), listed=[sc.S.index(s) + 1 for s in listed], center=sc.S.index(center) + 1,
         cfg=dict(loss=c["loss_function"], a=q(c["loss_function_threshold"]), gps=int(c["bundle_use_gps"]), gcp=int(c["bundle_use_gcp"]), opt=int(c["optimize_camera_parameters"]), bias=int(c["bundle_compensate_gps_bias"]),
                  up=int(c["align_method"] == "orientation_prior" and c["align_orientation_prior"] != "no_roll"), rigr=q(c["rig_rotation_sd"]), rigt=q(c["rig_translation_sd"]),
                  radius=c["local_bundle_radius"], min=c["local_bundle_min_common_points"], max=c["local_bundle_max_shots"], gw=q(c["gcp_global_weight"]), hsd=q(c["gcp_horizontal_sd"]), vsd=q(c["gcp_vertical_sd"])),
         shots=shots, insts=[[sc.S.index(s) + 1 for s in sorted(rec.rig_instances[i].keys())] for i in sc.I], npts=len(sc.P), lever=[int(r in sc.C) for r in sc.RC],
         obs=[[sc.S.index(o[0]) + 1, sc.P.index(o[1]) + 1, int(round(o[3] * 1e9)), q(o[4][2]) if o[4] else 0] for o in sc.obs],
         gcp=[dict(tri=t, lla=vec(REF.to_topocentric(g[0].lla["latitude"], g[0].lla["longitude"], g[0].lla.get("altitude", 0))) if g[4] else [], alt=int(g[3])) for t, g in zip(tri, sc.gcp)],
         gobs=[[gi + 1, sc.S.index(s) + 1] for gi, s, _ in sc.gobs],
         before=dict(rest=""), after=dict(rest=""), base0=dict(o=[]), base=dict(o=[]), probes=[], errs=[], ids=[], num=[])


for n in range(inp["adjust"]):
    one(R.choice(["bundle", "bundle", "local", "poses"]))


# ------------------------------------------------------------- neighborhoods
def graph(obs, rig):
    rec = types.Reconstruction()
    rec.reference = REF
    cam = make_camera(R, "cam", "perspective")
    rec.add_camera(cam)
    n = len(rig)
    names = ["n%d" % i for i in range(n)]
    for g in sorted(set(rig)):
        mem = [i for i in range(n) if rig[i] == g]
        if len(mem) == 1:
            rec.create_shot(names[mem[0]], "cam", pygeometry.Pose())
        else:
            rec.add_rig_instance(pymap.RigInstance("g%d" % g))
            for j, i in enumerate(mem):
                if "r%d" % j not in rec.rig_cameras:
                    rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), "r%d" % j))
                rec.create_shot(names[i], "cam", rig_camera_id="r%d" % j, rig_instance_id="g%d" % g)
    for p, o in enumerate(obs):
        rec.create_point("p%d" % p, np.zeros(3))
        for s in o:
            rec.add_observation(names[s - 1], "p%d" % p, pymap.Observation(0, 0, .004, 1, 2, 3, p))
    return rec, names


def near(item):
    rec, names = graph(item["obs"], item["rig"])
    flat = len(set(item["rig"])) == len(item["rig"])

    def f(e):
        a, b = pysfm.BAHelpers.shot_neighborhood_ids(rec.map, names[item["c"] - 1], item["r"], item["min"], item["max"])
        e["inner"], e["outer"] = sorted(names.index(x) + 1 for x in a), sorted(names.index(x) + 1 for x in b)
        if flat:
            a, b = orec.shot_neighborhood(rec, names[item["c"] - 1], item["r"], item["min"], item["max"])
            e["inner2"], e["outer2"] = sorted(names.index(x) + 1 for x in a), sorted(names.index(x) + 1 for x in b)
    case("near", f, obs=item["obs"], rig=item["rig"], c=item["c"], r=item["r"], min=item["min"], max=item["max"], flat=int(flat), inner=[], outer=[], inner2=[], outer2=[])


for it in inp["near"]:
    near(it)
for n in range(inp["randnear"]):
    m = R.choice([5, 7])
    rig = list(range(1, m + 1))
    if R.random() < .6:
        i = R.randrange(m - 1)
        rig[i + 1] = rig[i]
    near(dict(obs=[sorted(R.sample(range(1, m + 1), R.randrange(1, 4))) for _ in range(R.randrange(3, 12))], rig=rig, c=R.randrange(1, m + 1), r=R.choice([1, 2, 3, 4, 5]), min=R.choice([1, 2, 3]), max=R.choice([2, 3, 5, 100])))


# ------------------------------------------------------------- kind of alignment
for n in range(inp["detect"]):
    rec = types.Reconstruction()
    rec.reference = REF
    rec.add_camera(make_camera(R, "cam", "perspective"))
    kind = R.choice(["line", "spread", "plane", "few"])
    m = R.choice([0, 1, 2]) if kind == "few" else R.choice([4, 6, 9])
    gps = R.random() < .8
    d, d2 = g3(), g3()
    d2 = np.cross(d, d2)
    for i in range(m + R.choice([0, 2])):
        o = d * i if kind == "line" else d * R.uniform(-3, 3) + d2 / np.linalg.norm(d2) * R.uniform(-3, 3) + (g3() if kind == "spread" else 0) + d * i
        p = pygeometry.Pose(g3(.1))
        p.set_origin(o)
        s = rec.create_shot("s%d" % i, "cam", p)
        if i < m:
            s.metadata.gps_position.value = o + g3(.1)
    gcps, placed = [], []
    for i in range(R.choice([0, 0, 1, 4])):
        g = pymap.GroundControlPoint()
        g.id = "g%d" % i
        X = g3(2) + np.array([0, 0, 8.])
        if R.random() < .7:
            lat, lon, a = REF.to_lla(*X)
            g.lla = {"latitude": lat, "longitude": lon, "altitude": a}
            g.has_altitude = True
        k = 0
        for s in R.sample(sorted(rec.shots.keys()), min(len(rec.shots), R.choice([0, 1, 3]))):
            b = rec.shots[s].pose.transform(X)
            z = observe(rec.shots[s].camera, b)
            if z is not None:
                o = pymap.GroundControlPointObservation()
                o.shot_id, o.projection = s, z
                g.add_observation(o)
                k += 1
        gcps.append(g)
        org = [rec.shots[o.shot_id].pose.get_origin() for o in g.observations]
        dirs = [(X - o) / np.linalg.norm(X - o) for o in org]
        ang = max([math.acos(min(1, float(a @ b))) for a in dirs for b in dirs] or [0])
        placed.append(2 if .0005 < ang < .005 else int(bool(g.lla) and k >= 2 and ang >= .005))
    use = R.random() < .7
    cfg = config_mod.default_config()
    cfg["bundle_use_gps"], cfg["bundle_use_gcp"] = gps, use
    rows = [rec.shots["s%d" % i].pose.get_origin() for i in range(m)] if gps else []
    if 2 in placed:
        continue
    if use:
        for g, pl in zip(gcps, placed):
            if pl:
                rows.append(np.array(REF.to_topocentric(g.lla["latitude"], g.lla["longitude"], g.lla["altitude"])))
    ratio = 0
    if len(rows) >= 3:
        ev = np.linalg.eigvalsh(np.cov(np.array(rows).T, bias=True) * len(rows))
        small = int(sum(ev < 1e-10))
        ratio = 1 if small > 1 or ev[2] > 6e3 * abs(ev[1]) else 0 if small <= 1 and ev[2] < 4e3 * abs(ev[1]) and not any(1e-11 < x < 1e-9 for x in ev) else 2

    def f(e):
        for _ in range(3):
            junk = [np.random.rand(50, 3) * 1e6 for _ in range(20)]
            del junk
            e["got"].append(pysfm.BAHelpers.detect_alignment_constraints(rec.map, cfg, gcps))
    case("detect", f, rows=len(rows), line=ratio, got=[])

save_output({"cases": [{"id": "c%d" % i, "events": [e]} for i, e in enumerate(EV)]})
