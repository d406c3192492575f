"""Pose algebra and rigs, with exactly representable motions."""
import itertools
import cv2
import numpy as np
from vcommon import *
from opensfm import pygeometry, pymap, types

inp = load_input()
R = rng("pose")
Pose = pygeometry.Pose
S = 10000

OCT = []
for perm in itertools.permutations(range(3)):
    for sg in itertools.product((1, -1), repeat=3):
        M = np.zeros((3, 3), dtype=int)
        for r in range(3):
            M[r, perm[r]] = sg[r]
        if round(np.linalg.det(M)) == 1:
            OCT.append((1, M))


def quat(a, b, c, d):
    n = a * a + b * b + c * c + d * d
    M = np.array([[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
                  [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
                  [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]])
    g = np.gcd.reduce(np.append(M.ravel(), n))
    return int(n // g), M // g


RAT = [quat(*x) for x in itertools.product(range(-2, 3), repeat=4) if any(x)]
RAT = [r for r in RAT if r[0] in (3, 5, 7)]


def motion(rat=False, t=9):
    n, M = R.choice(RAT) if rat else R.choice(OCT)
    k = R.random()
    if k < .12:
        n, M = 1, np.eye(3, dtype=int)
    return dict(n=n, M=[int(v) for v in M.ravel()], t=[0, 0, 0] if k > .75 else [R.choice([0, R.randrange(-t, t + 1)]) for _ in range(3)], d=1)


ID = dict(n=1, M=[1, 0, 0, 0, 1, 0, 0, 0, 1], t=[0, 0, 0], d=1)


def mat(m):
    return np.array(m["M"], dtype=float).reshape(3, 3) / m["n"]


def vec(m):
    return np.array(m["t"], dtype=float) / m["d"]


def rod(A):
    return cv2.Rodrigues(A)[0].ravel()


def four(m):
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = mat(m), vec(m)
    return T


def build(m):
    k = R.randrange(5)
    if k == 0:
        return Pose(mat(m), vec(m))
    if k == 1:
        return Pose(rod(mat(m)), vec(m))
    p = Pose(mat(m)) if k == 2 else Pose(rod(mat(m))) if k == 3 else Pose()
    if k == 4:
        p.set_from_world_to_cam(four(m))
    else:
        p.translation = vec(m)
    return p


def n12(A, t):
    return [q(x, S) for x in np.asarray(A, dtype=float).ravel()] + [q(x, S) for x in np.asarray(t, dtype=float).ravel()]


def w2c(p):
    return n12(p.get_rotation_matrix(), p.translation)


def c2w(p):
    return n12(p.get_R_cam_to_world(), p.get_origin())


def views(p):
    T, U, Rt = p.get_world_to_cam(), p.get_cam_to_world(), p.get_Rt()
    W = [w2c(p), n12(p.get_R_world_to_cam(), p.get_t_world_to_cam()), n12(T[:3, :3], T[:3, 3]), n12(Rt[:, :3], Rt[:, 3]),
         n12(cv2.Rodrigues(np.array(p.rotation))[0], p.translation), n12(cv2.Rodrigues(np.array(p.get_R_world_to_cam_min()))[0], p.translation),
         w2c(Pose(p.rotation, p.translation)), c2w(p.inverse()), w2c(p.inverse().inverse())]
    C = [c2w(p), n12(U[:3, :3], U[:3, 3]), n12(p.get_R_cam_to_world(), p.get_t_cam_to_world()),
         n12(cv2.Rodrigues(np.array(p.get_R_cam_to_world_min()))[0], p.get_origin()), w2c(p.inverse())]
    return W, C


def guard(e, f):
    try:
        f()
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    return e


cases = []


# ------------------------------------------------------------ pose objects
def setter(p, op, m):
    A, t = mat(m), vec(m)
    if op == "setR":
        if R.random() < .5:
            p.rotation = rod(A)
        else:
            p.set_rotation_matrix(A)
    elif op == "setT":
        p.translation = t
    elif op == "setO":
        p.set_origin(t)
    else:
        f = p.set_from_world_to_cam if op == "setW2C" else p.set_from_cam_to_world
        k = R.randrange(3)
        f(four(m)) if k == 0 else f(A, t) if k == 1 else f(rod(A), t)


def pose_case(cid):
    evs = []
    m = motion(R.random() < .5)
    progress({"case": cid})
    box = []
    e = dict(op="new", exc="", p=m, w2c=[], c2w=[])

    def mk():
        box.append(build(m))
        e["w2c"], e["c2w"] = views(box[0])
    evs.append(guard(e, mk))
    p = box[0]
    for _ in range(R.randrange(1, 6)):
        m = motion(R.random() < .4)
        e = dict(op=R.choice(["setR", "setR", "setT", "setO", "setW2C", "setC2W"]), exc="", p=m, w2c=[], c2w=[])

        def st():
            setter(p, e["op"], m)
            e["w2c"], e["c2w"] = views(p)
        evs.append(guard(e, st))
    for _ in range(3):
        a, b = motion(True), motion(R.random() < .5)
        pa, pb = build(a), build(b)
        e = dict(op="alg", exc="", f=R.choice(["compose", "relative", "inverse"]), a=a, b=b, got=[], gotinv=[])

        def al():
            r = pa.compose(pb) if e["f"] == "compose" else pa.relative_to(pb) if e["f"] == "relative" else pa.inverse()
            e["got"], e["gotinv"] = w2c(r), c2w(r)
        evs.append(guard(e, al))
        xs = [[R.randrange(-20, 21) for _ in range(3)] for _ in range(R.randrange(1, 4))]
        e = dict(op="pts", exc="", f=R.choice(["to", "from"]), a=a, xs=xs, one=[], many=[])

        def pt():
            f, g = (pa.transform, pa.transform_many) if e["f"] == "to" else (pa.transform_inverse, pa.transform_inverse_many)
            e["one"] = [[q(v, S) for v in f(np.array(x, dtype=float))] for x in xs]
            e["many"] = [[q(v, S) for v in y] for y in g(np.array(xs, dtype=float))]
        evs.append(guard(e, pt))
        s = R.choice([(1, 2), (3, 1), (1, 1), (3, 2)])
        e = dict(op="similarity", exc="", a=a, p=s[0], q=s[1], xs=xs, got=[], back=[])

        def si():
            o = pygeometry.Similarity(rod(mat(a)), vec(a), s[0] / s[1])
            if R.random() < .4:
                o = pygeometry.Similarity(rod(mat(b)), vec(b), 5.0)
                for w in R.sample("rts", 3):
                    if w == "r":
                        o.rotation = rod(mat(a))
                    elif w == "t":
                        o.translation = vec(a)
                    else:
                        o.scale = s[0] / s[1]
            e["got"] = [[q(v, S) for v in o.transform(np.array(x, dtype=float))] for x in xs]
            e["back"] = [[q(v, S) for v in o.inverse().transform(o.transform(np.array(x, dtype=float)))] for x in xs]
        evs.append(guard(e, si))
    return {"id": cid, "kind": "pose", "events": evs}


# ------------------------------------------------------------ rigs
class Rig:
    def __init__(self, cid):
        self.rec = types.Reconstruction()
        self.cid = cid
        self.evs = []
        c = pygeometry.Camera.create_perspective(.9, 0, 0)
        c.id = "cam"
        self.rec.add_camera(c)
        self.cams, self.insts, self.shots = [], [], {}

    def dump(self):
        d = dict(shots=[], insts=[], cams=[])
        for i, s in self.rec.shots.items():
            d["shots"].append([i, w2c(s.pose), c2w(s.pose)])
        for i, s in self.rec.rig_instances.items():
            d["insts"].append([i, w2c(s.pose)])
            for j, sh in s.shots.items():
                assert w2c(sh.pose) == w2c(self.rec.shots[j].pose)
        for i, s in self.rec.rig_cameras.items():
            d["cams"].append([i, w2c(s.pose)])
        return d

    def do(self, op, k, m=ID, i="", c=""):
        e = dict(op=op, k=k, p=m, i=i, c=c, exc="", dump=dict(shots=[], insts=[], cams=[]))
        progress({"case": self.cid, "op": e})
        rec = self.rec
        try:
            if op == "addcam":
                rec.add_rig_camera(pymap.RigCamera(build(m), k))
                self.cams.append(k)
            elif op == "addinst":
                rec.add_rig_instance(pymap.RigInstance(k))
                self.insts.append(k)
            elif op in ("addshot", "addshotp"):
                rec.create_shot(k, "cam", build(m) if op == "addshotp" else None, rig_camera_id=c, rig_instance_id=i)
                self.shots[k] = (i, c)
            elif op == "delshot":
                rec.remove_shot(k)
                self.shots.pop(k)
            elif op == "inst":
                ps = rec.rig_instances[k]
                z = R.randrange(3)
                if z == 0:
                    ps.pose = build(m)
                elif z == 1:
                    ps.pose.set_from_world_to_cam(mat(m), vec(m))
                else:
                    ps.pose.set_rotation_matrix(mat(m))
                    ps.pose.translation = vec(m)
            elif op == "cam":
                users = [j for j, (_, cc) in self.shots.items() if cc == k]
                if users and R.random() < .4:
                    rec.rig_instances[self.shots[users[0]][0]].update_rig_camera_pose(k, build(m))
                else:
                    rec.rig_cameras[k].pose = build(m)
            elif op == "place":
                rec.rig_instances[self.shots[k][0]].update_instance_pose_with_shot(k, build(m))
            elif op == "move":
                sh = rec.shots[k]
                z = R.randrange(3)
                if z == 0:
                    sh.pose = build(m)
                elif z == 1:
                    sh.pose.set_from_world_to_cam(mat(m), vec(m))
                else:
                    sh.pose.set_from_cam_to_world(np.linalg.inv(four(m)))
            elif op == "project":
                pass
        except Exception as x:
            e["exc"] = exc_name(x) + ": " + str(x)[:200]
        try:
            e["dump"] = self.dump()
        except Exception as x:
            e["exc"] = "dump " + exc_name(x) + ": " + str(x)[:200]
        self.evs.append(e)

    def case(self):
        return {"id": self.cid, "kind": "rig", "events": self.evs}


INST = {"a": "i1", "b": "i1", "c": "i2", "d": "i3"}
CAM = {"a": "c1", "b": "c2", "c": "c1", "d": "c0"}
for n, b in enumerate(inp["behaviours"]):
    r = Rig("spec-%d" % n)
    for c in ("c0", "c1", "c2"):
        r.do("addcam", c)
    for i in ("i1", "i2", "i3"):
        r.do("addinst", i)
    for s in "abcd":
        r.do("addshot", s, ID, INST[s], CAM[s])
    r.evs[:-1] and r.evs
    for o in b:
        p = {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in o["p"].items()}
        r.do(o["op"], o["k"], p)
    cases.append(r.case())
for n in range(inp["random"]):
    cases.append(pose_case("pose-%d" % n))
for n in range(inp["rigs"]):
    r = Rig("rig-%d" % n)
    m = lambda: ID if R.random() < .25 else motion()
    for j in range(R.randrange(1, 4)):
        r.do("addcam", "c%d" % j, m())
    for j in range(R.randrange(1, 4)):
        r.do("addinst", "i%d" % j)
    ns = 0
    for _ in range(R.randrange(5, 14)):
        op = R.choice(["addshot", "addshotp", "addshotp", "inst", "cam", "place", "move", "move", "delshot"])
        if op.startswith("addshot"):
            free = [(i, c) for i in r.insts for c in r.cams if (i, c) not in r.shots.values()]
            if free:
                i, c = R.choice(free)
                r.do(op, "s%d" % ns, m(), i, c)
                ns += 1
        elif op == "inst":
            r.do(op, R.choice(r.insts), m())
        elif op == "cam":
            r.do(op, R.choice(r.cams), m())
        elif r.shots and (op != "delshot" or R.random() < .4):
            r.do(op, R.choice(sorted(r.shots)), m())
    cases.append(r.case())
save_output({"cases": cases})
