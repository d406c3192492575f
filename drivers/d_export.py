"""Exports: readers of the formats, written from their documentation."""
import io as pio
import json
import math
import os
import shutil
import sqlite3
import struct
import cv2
import numpy as np
from vcommon import *
from opensfm import features, io, pygeometry, pymap, types
from opensfm.actions import export_bundler, export_colmap, export_openmvs, export_ply, export_pmvs, export_visualsfm
from opensfm.dataset import DataSet

inp = load_input()
C = pygeometry.Camera
SIZES = [(40, 30), (30, 40), (36, 36), (48, 20)]


def mk_camera(R, cid, pt, size):
    u = lambda s: R.uniform(-s, s)
    f, ar, pp = R.uniform(.6, 1.4), R.uniform(.8, 1.2), np.array([u(.05), u(.05)])
    if pt == "perspective":
        c = C.create_perspective(f, u(.1), u(.05))
    elif pt == "plain":
        c = C.create_perspective(f, 0., 0.)
    elif pt == "brown":
        c = C.create_brown(f, ar, pp, np.array([u(.1), u(.05), u(.02), u(.005), u(.005)]))
    elif pt == "brown0":
        c = C.create_brown(f, 1., np.zeros(2), np.array([u(.1), u(.05), u(.02), u(.005), u(.005)]))
    elif pt == "fisheye":
        c = C.create_fisheye(f, u(.1), u(.05))
    else:
        c = C.create_fisheye_opencv(f, ar, pp, np.array([u(.1), u(.05), u(.02), u(.01)]))
    c.id, (c.width, c.height) = cid, size
    return c


class Scene:
    """Reconstructions with cameras, tracks and features."""

    def __init__(self, R, spec, path, types_, small):
        self.R, self.path = R, path
        n = len(spec["rec"])
        self.names = R.sample(["a.jpg", "b.jpg", "Z1.jpg", "im 7.jpg" if spec.get("space") else "im7.jpg", "c_é.jpg" if spec.get("accent") else "c.jpg", "09.jpg", "x.png"], n)
        self.rec = spec["rec"]
        self.only = spec["only"]
        nrec = max(self.rec)
        self.cams, ucams = {}, {}
        self.camof = []
        nc = R.choice([1, 2])
        size = {}
        for k in range(nc):
            cid = "cam %d" % k
            size[k] = R.choice(SIZES)
            full = size[k] if small else tuple(100 * s for s in size[k])
            self.cams[cid] = mk_camera(R, cid, R.choice(types_), full)
            ucams[cid] = mk_camera(R, cid, "plain", size[k])
        self.size = {}
        for im in self.names:
            cid = R.choice(sorted(self.cams))
            self.camof.append(cid)
            self.size[im] = size[int(cid[4:])]
        self.obs = []
        self.feats = {}
        self.tm = pymap.TracksManager()
        self.utm = pymap.TracksManager()
        for i, im in enumerate(self.names):
            mine = sorted(o % 10 for o in spec["obs"] if o // 10 == i + 1) or [9]
            cam = self.cams[self.camof[i]]
            m = max(cam.width, cam.height)
            extra = R.randrange(1, 4)
            slots = R.sample(range(len(mine) + extra), len(mine)) if R.random() < .7 else list(range(1, len(mine) + 1))
            nf = max(slots + [0]) + R.randrange(1, 3)
            pts = np.array([[R.uniform(-.5, .5) * cam.width / m, R.uniform(-.5, .5) * cam.height / m, .004, 0.] for _ in range(nf)])
            pts = pts.astype(np.float32).astype(float)
            self.feats[im] = pts
            for t, f in zip(mine, slots):
                ob = pymap.Observation(pts[f][0], pts[f][1], .004, 1, 2, 3, f)
                self.tm.add_observation(im, "t%d" % t, ob)
                if self.rec[i] == 1:
                    self.utm.add_observation(im, "t%d" % t, ob)
                if self.rec[i]:
                    self.obs.append((self.rec[i], t, i + 1, f, pts[f][0], pts[f][1]))
        # every track of the reconstruction is known to the tracks manager
        self.recs, self.urecs, self.test = [], [], {}
        self.points, self.X, self.col = [], {}, {}
        for r in range(1, nrec + 1):
            rec, urec = types.Reconstruction(), types.Reconstruction()
            for cid in self.cams:
                rec.add_camera(self.cams[cid])
                urec.add_camera(ucams[cid])
            order = [i for i in range(n) if self.rec[i] == r]
            R.shuffle(order)
            for i in order:
                v = np.array([R.gauss(0, 1) for _ in range(3)])
                a = R.choice([0., R.uniform(0, 1), R.uniform(0, 3.1)])
                pose = pygeometry.Pose(v / np.linalg.norm(v) * a, np.array([R.uniform(-20, 20) for _ in range(3)]))
                rec.create_shot(self.names[i], self.camof[i], pose)
                urec.create_shot(self.names[i], self.camof[i], pose)
                near = .01 if self.cams[self.camof[i]].projection_type == "brown" and spec.get("axis") else .5
                P = [np.array([R.uniform(-near, near), R.uniform(-near, near), 1.]) * R.uniform(2, 15) for _ in range(4)]
                self.test[self.names[i]] = [pose.transform_inverse(p) for p in P]
            seen = {o[1] for o in self.obs if o[0] == r}
            pts = [p % 10 for p in spec["pts"] if p // 10 == r and p % 10 in seen]
            R.shuffle(pts)
            self.points.append(pts)
            for t in pts:
                X = np.array([R.uniform(-50, 50) for _ in range(3)])
                c = np.array([R.randrange(0, 256) for _ in range(3)])
                for x in (rec, urec):
                    lm = x.create_point("t%d" % t, X)
                    lm.color = c
                self.X[r, t], self.col[r, t] = X, [int(v) for v in c]
            self.recs.append(rec)
            self.urecs.append(urec)

    def save(self, undistorted):
        p = self.path
        os.makedirs(p + "/images")
        img = np.zeros((10, 10, 3), np.uint8)
        d = None
        for im in self.names:
            w, h = self.size[im]
            a = np.full((h, w, 3), 100, np.uint8)
            cv2.imencode(im[-4:], a)[1].tofile(p + "/images/" + im)
        data = DataSet(p)
        data.save_camera_models(self.cams)
        for i, im in enumerate(self.names):
            c = self.cams[self.camof[i]]
            data.save_exif(im, {"camera": c.id, "width": c.width, "height": c.height, "capture_time": float(i)})
            k = len(self.feats[im])
            data.save_features(im, features.FeaturesData(self.feats[im], np.zeros((k, 4), np.float32), np.zeros((k, 3), int), None))
            data.save_matches(im, {})
        data.save_reconstruction(self.recs)
        data.save_tracks_manager(self.tm)
        if undistorted:
            u = data.undistorted_dataset()
            os.makedirs(u.data_path)
            u.save_undistorted_reconstruction(self.urecs[:1])
            u.save_undistorted_tracks_manager(self.utm)
            for i, im in enumerate(self.names):
                if self.rec[i] == 1:
                    w, h = self.size[im]
                    u.save_undistorted_image(im, np.full((h, w, 3), 50, np.uint8))
        self.data = data
        return data

    def event(self, fmt, recs, **k):
        """recs: the reconstructions (1-based) that the file holds."""
        only = self.only if k.pop("filtered", False) else list(range(1, len(self.names) + 1))
        e = dict(op="export", fmt=fmt, exc="", bad=[], recs=[[i + 1 for i in range(len(self.names)) if self.rec[i] == r] for r in recs],
                 points=[self.points[r - 1] for r in recs], only=only, imgs=[], proj=[], noproj=0, pts=1, got=[], views=1, seen=[], back=[], xy=1, xytol=20, ptol=50)
        e["obs"] = [[recs.index(o[0]) + 1, o[1], o[2], o[3]] for o in self.obs if o[0] in recs]
        e.update(k)
        return e

    def put_xy(self, e, px):
        """The true coordinates from the centre, in thousandths of pixels of an image of that size."""
        for o in e["obs"]:
            s = px(o[2] - 1)
            f = self.feats[self.names[o[2] - 1]][o[3]]
            o += [q(f[0] * s, 1000), q(f[1] * s, 1000)]

    def truth_proj(self, i, scale, rec, plain=False):
        im = self.names[i]
        s = rec.shots[im]
        out = []
        for X in self.test[im]:
            p = s.camera.project(s.pose.transform(X))
            out += [q(p[0] * scale, 1000), q(p[1] * scale, 1000)]
        return out

    def key(self, recs, X, tol=2e-5):
        best = None
        for (r, t), Y in self.X.items():
            if r in recs and np.abs(Y - X).max() < tol:
                best = [recs.index(r) + 1, t]
        return best


def milli(v):
    return [q(float(x), 1000) for x in np.ravel(v)]


def add_point(sc, e, recs, X, col, tol=2e-5):
    k = sc.key(recs, X, tol)
    if k is None:
        e["bad"].append("a point that is not in the reconstruction")
        return None
    r = recs[k[0] - 1]
    e["got"].append(k + [milli(X), milli(sc.X[r, k[1]]), list(col), sc.col[r, k[1]] if col else []])
    return k


# ------------------------------------------------------------------ bundler
def bundler(sc, undistorted):
    recs = [1] if undistorted else list(range(1, len(sc.recs) + 1))
    out = []
    err = ""
    try:
        export_bundler.run_dataset(sc.data, sc.path + "/bl", sc.path + "/bo", undistorted)
    except Exception as x:
        err = exc_name(x) + ": " + str(x)[:200]
    for j, r in enumerate(recs):
        e = sc.event("bundler", [r], exc=err)
        rec = (sc.urecs if undistorted else sc.recs)[r - 1]
        size = lambda i: max(rec.cameras[sc.camof[i]].width, rec.cameras[sc.camof[i]].height)
        sc.put_xy(e, size)
        out.append(e)
        if err:
            continue
        names = [l for l in open(sc.path + "/bl/list_r%03d.out" % j, encoding="utf-8").read().split("\n") if l]
        L = open(sc.path + "/bo/bundle_r%03d.out" % j, encoding="utf-8").read().split("\n")
        if not L[0].startswith("# Bundle file v0.3"):
            e["bad"].append("header")
        nc, npts = map(int, L[1].split())
        if nc != len(names):
            e["bad"].append("number of cameras")
        at = 2
        for k in range(nc):
            f, k1, k2 = map(float, L[at].split())
            M = np.array([[float(v) for v in l.split()] for l in L[at + 1:at + 5]])
            at += 5
            if f == 0:
                continue
            i = sc.names.index(names[k])
            e["imgs"].append(i + 1)
            uv = []
            for X in sc.test[names[k]]:
                P = M[:3] @ X + M[3]
                p = -P[:2] / P[2]
                if P[2] >= 0:
                    e["bad"].append("a camera looks backwards")
                rr = p @ p
                p = f * (1 + k1 * rr + k2 * rr * rr) * p
                uv += [p[0], -p[1]]
            e["proj"].append([i + 1, milli(uv), sc.truth_proj(i, size(i), rec)])
        for k in range(npts):
            X = np.array([float(v) for v in L[at].split()])
            col = [int(v) for v in L[at + 1].split()]
            w = L[at + 2].split()
            at += 3
            kk = add_point(sc, e, [r], X, col)
            if int(w[0]) * 4 != len(w) - 1:
                e["bad"].append("length of a list of views")
                continue
            for v in range(int(w[0])):
                a, b, x, y = w[1 + 4 * v:5 + 4 * v]
                if kk and 0 <= int(a) < nc:
                    e["seen"].append(kk + [sc.names.index(names[int(a)]) + 1, int(b), q(float(x), 1000), q(-float(y), 1000)])
        if [l for l in L[at:] if l]:
            e["bad"].append("lines after the last point")
    return out


# ------------------------------------------------------------------ visualsfm
def nvm(sc, with_points, filtered):
    lst = ""
    if filtered:
        lst = sc.path + "/only.txt"
        open(lst, "w").write("".join(sc.names[i - 1] + "\n" for i in sc.only))
    e = sc.event("nvm", [1], filtered=filtered, pts=int(with_points))
    size = lambda i: max(sc.size[sc.names[i]])
    sc.put_xy(e, size)
    try:
        export_visualsfm.run_dataset(sc.data, with_points, lst)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
        return [e]
    u = sc.data.undistorted_dataset().data_path
    T = open(u + "/reconstruction.nvm", encoding="utf-8").read().split("\n")
    if not T[0].startswith("NVM_V3"):
        e["bad"].append("header")
    T = [l for l in T[1:] if l.strip()]
    n = int(T[0])
    order = []
    rec = sc.urecs[0]
    for l in T[1:1 + n]:
        w = l.rsplit(" ", 10)
        im = os.path.basename(w[0])
        if os.path.abspath(os.path.join(u, w[0])) != os.path.abspath(u + "/images/" + im) or im not in sc.names:
            e["bad"].append("the path of an image")
            continue
        i = sc.names.index(im)
        order.append(i)
        e["imgs"].append(i + 1)
        f, qw, qx, qy, qz, cx, cy, cz, k1, z = map(float, w[1:])
        Rm = quat(qw, qx, qy, qz)
        uv = []
        for X in sc.test[im]:
            P = Rm @ (X - np.array([cx, cy, cz]))
            uv += list(f * P[:2] / P[2])
        e["proj"].append([i + 1, milli(uv), sc.truth_proj(i, size(i), rec)])
    rest = T[1 + n:]
    m = int(rest[0])
    ok = None
    if with_points:
        raw = []
        for l in rest[1:1 + m]:
            w = l.split()
            k = add_point(sc, e, [1], np.array([float(v) for v in w[:3]]), [int(v) for v in w[3:6]])
            if int(w[6]) * 4 != len(w) - 7:
                e["bad"].append("length of a list of views")
                continue
            for v in range(int(w[6])):
                a, b, x, y = w[7 + 4 * v:11 + 4 * v]
                if k:
                    raw.append((k, order[int(a)], int(b), float(x), float(y)))
        # the origin is the centre or the first corner
        tr = {(o[1], o[2], o[3]): (o[4], o[5]) for o in e["obs"]}
        for c in (0, .5):
            rows = []
            for k, i, b, x, y in raw:
                w, h = sc.size[sc.names[i]]
                rows.append(k + [i + 1, b, q(x - c * w, 1000), q(y - c * h, 1000)])
            if ok is None or all(tuple(row[1:4]) in tr and abs(tr[tuple(row[1:4])][0] - row[4]) < 20 for row in rows):
                ok = rows
        e["seen"] = ok
        tail = rest[1 + m:]
    else:
        if m != 0:
            e["bad"].append("points that were not asked for")
        tail = rest[1:]
    if [x for x in tail if x.strip() != "0"]:
        e["bad"].append("lines after the points")
    return [e]


def quat(w, x, y, z):
    n = math.sqrt(w * w + x * x + y * y + z * z)
    w, x, y, z = w / n, x / n, y / n, z / n
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


# ------------------------------------------------------------------ colmap
NPAR = {3: 5, 9: 5, 5: 8, 6: 12}
NAME = {"RADIAL": 3, "RADIAL_FISHEYE": 9, "OPENCV_FISHEYE": 5, "FULL_OPENCV": 6}


def colmap_project(model, p, P):
    x, y = P[0] / P[2], P[1] / P[2]
    r = math.hypot(x, y)
    th = math.atan(r)
    if model == 3:
        d = 1 + p[3] * r ** 2 + p[4] * r ** 4
        return p[0] * d * x + p[1], p[0] * d * y + p[2]
    if model == 9:
        d = th * (1 + p[3] * th ** 2 + p[4] * th ** 4) / r
        return p[0] * d * x + p[1], p[0] * d * y + p[2]
    if model == 5:
        d = th * (1 + p[4] * th ** 2 + p[5] * th ** 4 + p[6] * th ** 6 + p[7] * th ** 8) / r
        return p[0] * d * x + p[2], p[1] * d * y + p[3]
    k1, k2, p1, p2, k3, k4, k5, k6 = p[4:]
    d = (1 + k1 * r ** 2 + k2 * r ** 4 + k3 * r ** 6) / (1 + k4 * r ** 2 + k5 * r ** 4 + k6 * r ** 6)
    return p[0] * (d * x + 2 * p1 * x * y + p2 * (r * r + 2 * x * x)) + p[2], p[1] * (d * y + 2 * p2 * x * y + p1 * (r * r + 2 * y * y)) + p[3]


def read_colmap(folder, binary):
    cams, ims, pts = {}, {}, {}
    if binary:
        f = pio.BytesIO(open(folder + "/cameras.bin", "rb").read())
        g = lambda fmt: struct.unpack("<" + fmt, f.read(struct.calcsize("<" + fmt)))
        for _ in range(g("Q")[0]):
            cid, model, w, h = g("iiQQ")
            cams[cid] = (model, w, h, g("%dd" % NPAR[model]))
        over = len(f.read())
        f = pio.BytesIO(open(folder + "/images.bin", "rb").read())
        for _ in range(g("Q")[0]):
            iid, = g("I")
            v = g("7d")
            cid, = g("I")
            s = b""
            while True:
                c = f.read(1)
                if c == b"\0" or not c:
                    break
                s += c
            n, = g("Q")
            ims[iid] = (v, cid, s.decode("utf-8"), [g("ddq") for _ in range(n)])
        over += len(f.read())
        f = pio.BytesIO(open(folder + "/points3D.bin", "rb").read())
        for _ in range(g("Q")[0]):
            pid, x, y, z, r, gg, b, er, n = g("Q3d3BdQ")
            pts[pid] = ((x, y, z), [r, gg, b], [g("ii") for _ in range(n)])
        over += len(f.read())
        return cams, ims, pts, over
    for l in open(folder + "/cameras.txt", encoding="utf-8"):
        w = l.split()
        if w and w[0] != "#":
            cams[int(w[0])] = (NAME[w[1]], int(w[2]), int(w[3]), [float(v) for v in w[4:]])
    L = open(folder + "/images.txt", encoding="utf-8").read().split("\n")
    L = L[:-1] if L[-1] == "" else L
    for k in range(0, len(L), 2):
        w = L[k].split(" ", 9)
        v = L[k + 1].split()
        ims[int(w[0])] = ([float(x) for x in w[1:8]], int(w[8]), w[9], [(float(v[3 * j]), float(v[3 * j + 1]), int(v[3 * j + 2])) for j in range(len(v) // 3)])
    n = 0
    for l in open(folder + "/points3D.txt", encoding="utf-8"):
        w = l.split()
        n += 1
        pts[int(w[0])] = ([float(x) for x in w[1:4]], [int(x) for x in w[4:7]], [(int(w[8 + 2 * j]), int(w[9 + 2 * j])) for j in range((len(w) - 8) // 2)])
    return cams, ims, pts, n - len(pts)


def colmap(sc, binary):
    recs = list(range(1, len(sc.recs) + 1))
    e = sc.event("colmap", recs, xytol=600, ptol=50 if binary else 400)
    size = lambda i: max(sc.cams[sc.camof[i]].width, sc.cams[sc.camof[i]].height)
    sc.put_xy(e, size)
    try:
        export_colmap.run_dataset(sc.data, binary)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
        return [e]
    cams, ims, pts, over = read_colmap(sc.path + "/colmap_export", binary)
    if over:
        e["bad"].append("the length of a file")
    at = {}
    for iid, (v, cid, name, p2) in ims.items():
        if name not in sc.names or cid not in cams:
            e["bad"].append("the name or camera of an image")
            continue
        i = sc.names.index(name)
        at[iid] = i
        e["imgs"].append(i + 1)
        model, w, h, par = cams[cid]
        c = sc.cams[sc.camof[i]]
        if (w, h) != (c.width, c.height):
            e["bad"].append("the size of a camera")
        Rm = quat(*v[:4])
        uv = []
        for X in sc.test[name]:
            a = colmap_project(model, par, Rm @ X + np.array(v[4:]))
            uv += [a[0] - w / 2., a[1] - h / 2.]
        e["proj"].append([i + 1, milli(uv), sc.truth_proj(i, size(i), sc.recs[sc.rec[i] - 1])])
    forward = {}
    for pid, (X, col, tr) in pts.items():
        k = add_point(sc, e, recs, np.array(X), col)
        for iid, idx in tr:
            forward.setdefault(iid, set()).add((idx, pid))
            if iid in at and 0 <= idx < len(ims[iid][3]) and k:
                i = at[iid]
                c = sc.cams[sc.camof[i]]
                x, y, _ = ims[iid][3][idx]
                e["seen"].append(k + [i + 1, idx, q(x - c.width / 2., 1000), q(y - c.height / 2., 1000)])
    for iid in ims:
        e["back"].append([sorted([a, b] for a, b in forward.get(iid, ())), sorted([a, x[2]] for a, x in enumerate(ims[iid][3]) if x[2] != -1)])
    return [e]


# ------------------------------------------------------------------ pmvs
def pmvs(sc, undistorted, filtered):
    lst = ""
    if filtered:
        lst = sc.path + "/only_p.txt"
        open(lst, "w").write("".join(sc.names[i - 1] + "\n" for i in sc.only))
    recs = [1] if undistorted else list(range(1, len(sc.recs) + 1))
    err = ""
    outp = sc.path + "/pm"
    try:
        export_pmvs.run_dataset(sc.data, False, lst, outp if sc.R.random() < .5 else "", undistorted)
    except Exception as x:
        err = exc_name(x) + ": " + str(x)[:200]
    outp = outp if os.path.isdir(outp) else sc.path + "/pmvs"
    ev = []
    for j, r in enumerate(recs):
        e = sc.event("pmvs", [r], exc=err, filtered=filtered, pts=0, ptol=600)
        ev.append(e)
        if err:
            continue
        rec = (sc.data.undistorted_dataset().load_undistorted_reconstruction() if undistorted else sc.data.load_reconstruction())[r - 1]
        order = [im for im in rec.shots if not filtered or sc.names.index(im) + 1 in sc.only]
        d = outp + "/recon%d" % j
        files = sorted(os.listdir(d + "/visualize"))
        if files != ["%08d.jpg" % k for k in range(len(order))] or sorted(os.listdir(d + "/txt")) != ["%08d.txt" % k for k in range(len(order))]:
            e["bad"].append("the images in the folder")
            continue
        vis = open(d + "/vis.dat").read().split("\n")
        if vis[0] != "VISDATA" or vis[1] != str(len(order)):
            e["bad"].append("header of vis.dat")
        tracks = {im: {o[1] for o in sc.obs if sc.names[o[2] - 1] == im} for im in order}
        got = {}
        for l in vis[2:]:
            w = list(map(int, l.split()))
            if w:
                got[w[0]] = w[2:]
                if w[1] != len(w) - 2:
                    e["bad"].append("length of a line of vis.dat")
        for k, im in enumerate(order):
            if sorted(got.get(k, [-1])) != [m for m, o in enumerate(order) if o != im and tracks[im] & tracks[o]]:
                e["bad"].append("the images that see the same points")
        opt = open(d + "/pmvs_txt").read()
        if "timages -1 0 %d\n" % len(order) not in opt or "useVisData 1" not in opt:
            e["bad"].append("the options")
        e["imgs"] = [sc.names.index(im) + 1 for im in order]
        for k, im in enumerate(order):
            i = sc.names.index(im)
            a = cv2.imread(d + "/visualize/%08d.jpg" % k)
            w, h = a.shape[1], a.shape[0]
            if (w, h) != sc.size[im]:
                e["bad"].append("the size of an image")
            tl = open(d + "/txt/%08d.txt" % k).read().split("\n")
            if "CONTOUR" not in tl[0]:
                e["bad"].append("header of a camera")
            P = np.array([[float(v) for v in l.split()] for l in tl[1:4]])
            uv, want = [], []
            s = rec.shots[im]
            for X in sc.test[im]:
                p = P @ np.append(X, 1)
                uv += [p[0] / p[2] - (w - 1) / 2., p[1] / p[2] - (h - 1) / 2.]
                c = s.pose.transform(X)
                want += [s.camera.focal * max(w, h) * c[0] / c[2], s.camera.focal * max(w, h) * c[1] / c[2]]
            e["proj"].append([i + 1, milli(uv), milli(want)])
    return ev


# ------------------------------------------------------------------ openmvs
def mvs(sc, filtered):
    lst = ""
    if filtered:
        lst = sc.path + "/only_m.txt"
        open(lst, "w").write("".join(sc.names[i - 1] + "\n" for i in sc.only))
    masks = {}
    u = sc.data.undistorted_dataset()
    for i, im in enumerate(sc.names):
        if sc.rec[i] == 1 and (sc.R.random() < .5 or os.path.exists(u.data_path + "/masks/" + im + ".png")):
            u.save_undistorted_mask(im, np.zeros((4, 4), np.uint8))
            masks[im] = os.path.abspath(u.data_path + "/masks/" + im + ".png")
    e = sc.event("mvs", [1], filtered=filtered, xy=0)
    sc.put_xy(e, lambda i: max(sc.size[sc.names[i]]))
    try:
        export_openmvs.run_dataset(sc.data, lst)
        f = pio.BytesIO(open(u.data_path + "/openmvs/scene.mvs", "rb").read())
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
        return [e]

    def g(fmt):
        return struct.unpack("<" + fmt, f.read(struct.calcsize("<" + fmt)))

    def s():
        return f.read(g("Q")[0]).decode("utf-8")
    if f.read(4) != b"MVSI":
        e["bad"].append("header")
    ver, _ = g("II")
    plats = []
    for _ in range(g("Q")[0]):
        name = s()
        cams, poses = [], []
        for _ in range(g("Q")[0]):
            nm, band = s(), (s() if ver > 3 else "")
            w, h = g("II")
            K = np.array(g("9d")).reshape(3, 3)
            Rr, Cc = np.array(g("9d")).reshape(3, 3), np.array(g("3d"))
            cams.append((w, h, K, Rr, Cc))
        for _ in range(g("Q")[0]):
            poses.append((np.array(g("9d")).reshape(3, 3), np.array(g("3d"))))
        plats.append((name, cams, poses))
    order = []
    rec = sc.urecs[0]
    for _ in range(g("Q")[0]):
        name, mask, pid, cid, poid = s(), s(), *g("III")
        if ver > 2:
            g("I")
        im = os.path.basename(name)
        if im not in sc.names or name != os.path.abspath(u.data_path + "/images/" + im):
            e["bad"].append("the path of an image")
            return [e]
        if mask != masks.get(im, ""):
            e["bad"].append("the mask of an image")
        i = sc.names.index(im)
        order.append(i)
        e["imgs"].append(i + 1)
        w, h, K, Rc, Cc = plats[pid][1][cid]
        Rp, Cp = plats[pid][2][poid]
        if plats[pid][0] != sc.camof[i] or (w, h) != sc.size[im] or np.abs(Rc - np.eye(3)).max() + np.abs(Cc).max() > 0:
            e["bad"].append("the platform of an image")
        uv = []
        for X in sc.test[im]:
            p = K @ (Rp @ (X - Cp))
            uv += [p[0] / p[2] - (w - 1) / 2., p[1] / p[2] - (h - 1) / 2.]
        e["proj"].append([i + 1, milli(uv), sc.truth_proj(i, max(w, h), rec)])
    feat = {(o[1], o[2]): o[3] for o in e["obs"]}
    for _ in range(g("Q")[0]):
        X = np.array(g("3f"), float)
        k = add_point(sc, e, [1], X, [], 2e-4)
        if k:
            e["got"][-1][4] = e["got"][-1][5] = []
        for _ in range(g("Q")[0]):
            im, _c = g("If")
            if k and im < len(order):
                i = order[im] + 1
                e["seen"].append(k + [i, feat.get((k[1], i), -1), 0, 0])
    return [e]


# ------------------------------------------------------------------ ply
def read_ply(text):
    L = text.split("\n")
    if L[0] != "ply" or not L[1].startswith("format ascii 1.0"):
        raise RuntimeError("header")
    h = L.index("end_header")
    cnt = [int(l.split()[2]) for l in L[:h] if l.startswith("element vertex")][0]
    props = [l.split()[2] for l in L[:h] if l.startswith("property")]
    return cnt, props, [l.split() for l in L[h + 1:] if l]


def ply(sc):
    R = sc.R
    no_c, no_p, views = R.random() < .4, R.random() < .3, R.random() < .5
    e = dict(op="ply", exc="", bad=[], rows=[], want=[], count=0, props=0, tol=20)
    try:
        export_ply.run_dataset(sc.data, no_c, no_p, False, views)
        cnt, props, rows = read_ply(open(sc.path + "/reconstruction.ply").read())
        e["count"], e["props"] = cnt, len(props)
        e["rows"] = [[q(float(v), 1000) for v in r] for r in rows]
        if props[:6] != ["x", "y", "z", "red", "green", "blue"] or (props[6:] != (["views"] if views else [])):
            e["bad"].append("the properties")
        rec = sc.recs[0]
        if not no_p:
            for t, p in rec.points.items():
                row = list(p.coordinates) + [float(int(c)) for c in p.color]
                if views:
                    row.append(float(len(sc.tm.get_track_observations(t))))
                e["want"].append(milli(row))
        if not no_c:
            for sid, s in rec.shots.items():
                o = s.pose.get_origin()
                for ax in range(3):
                    tip = s.pose.get_rotation_matrix()[ax]
                    for dd in np.linspace(0, 2, 10):
                        e["want"].append(milli(list(o + dd * tip) + [255. * (ax == k) for k in range(3)] + ([0.] if views else [])))
        # both lists in a canonical order
        e["rows"].sort()
        e["want"].sort()
        e["rows"], e["want"] = match_rows(e["rows"], e["want"])
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    return [e]


def match_rows(a, b):
    """Pair rows that are equal up to rounding."""
    used, out = set(), []
    for r in a:
        best = None
        for k, s in enumerate(b):
            if k not in used and len(s) == len(r) and all(abs(x - y) <= 2 for x, y in zip(r, s)):
                best = k
                break
        if best is None:
            return a, b
        used.add(best)
        out.append(b[best])
    return a, out + [b[k] for k in range(len(b)) if k not in used]


def depth_ply(sc):
    R = sc.R
    e = dict(op="ply", exc="", bad=[], rows=[], want=[], count=0, props=0, tol=600)
    ims = [i for i in range(len(sc.names)) if sc.rec[i] == 1]
    if not ims:
        return []
    u = sc.data.undistorted_dataset()
    rec = sc.urecs[0]
    kept = {}
    try:
        for i in ims:
            im = sc.names[i]
            W, H = sc.size[im]
            f = R.choice([1, 2])
            w, h = W // f, H // f
            depth = np.array([[R.choice([0., R.uniform(1, 20)]) for _ in range(w)] for _ in range(h)])
            os.makedirs(os.path.dirname(u.depthmap_file(im, "clean.npz")), exist_ok=True)
            for t in [x for x in ("clean", "raw") if R.random() < .6]:
                np.savez_compressed(u.depthmap_file(im, t + ".npz"), depth=depth)
                kept[im, t] = depth
        export_ply.run_dataset(sc.data, False, False, True, False)
        for im in rec.shots:
            for t in ("clean", "raw"):
                if ((im, t) in kept) != os.path.exists(u.depthmap_file(im, t + ".ply")):
                    e["bad"].append("the point clouds of depth maps")
        if not kept or e["bad"]:
            return [e]
        im, t = R.choice(sorted(kept))
        depth = kept[im, t]
        cnt, props, rows = read_ply(open(u.depthmap_file(im, t + ".ply")).read())
        e["count"], e["props"] = cnt, len(props)
        s = rec.shots[im]
        h, w = depth.shape
        fpx = s.camera.focal * max(w, h)
        for y in range(h):
            for x in range(w):
                if depth[y, x]:
                    e["want"].append([1000 * x, 1000 * y, q(depth[y, x], 100000)])
        for r in rows:
            p = s.pose.transform(np.array([float(v) for v in r[:3]]))
            e["rows"].append([q(p[0] / p[2] * fpx + (w - 1) / 2., 1000), q(p[1] / p[2] * fpx + (h - 1) / 2., 1000), q(p[2], 100000)] + [int(float(v)) * 1000 for v in r[3:]])
            if any(abs(int(float(v)) - 50) > 6 for v in r[3:6]):
                e["bad"].append("the colours of a depth map")
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    return [e]


# ------------------------------------------------------------------ colmap database
def database(k, _):
    R = rng("db%d" % k)
    np.random.seed(SEED * 100 + k)
    path = os.path.join(SCRATCH, "db%d" % k)
    os.makedirs(path + "/images")
    n = R.randrange(2, 5)
    names = R.sample(["a.jpg", "Z.jpg", "b.jpg", "09.jpg", "x.jpg"], n)
    for im in names:
        open(path + "/images/" + im, "w").write("x")
    data = DataSet(path)
    cams = {"c%d" % j: mk_camera(R, "c%d" % j, R.choice(["perspective", "brown", "fisheye", "fisheye_opencv"]), R.choice([(4000, 3000), (3000, 4000)])) for j in range(R.choice([1, 2]))}
    over = {}
    if R.random() < .3:
        c0 = cams["c0"]
        over = {"c0": mk_camera(R, "c0", "perspective", (c0.width, c0.height))}
        data.save_camera_models_overrides(over)
    data.save_camera_models(cams)
    X = np.array([[R.uniform(-5, 5), R.uniform(-5, 5), R.uniform(8, 20)] for _ in range(40)])
    camof, feats, perm = {}, {}, {}
    for im in names:
        camof[im] = R.choice(sorted(cams))
        c = cams[camof[im]]
        pose = pygeometry.Pose(np.array([R.uniform(-.1, .1) for _ in range(3)]), np.array([R.uniform(-2, 2) for _ in range(3)]))
        o = list(range(40))
        R.shuffle(o)
        perm[im] = {p: j for j, p in enumerate(o)}  # point -> feature
        uv = np.array([pose.transform(X[p])[:2] / pose.transform(X[p])[2] * .8 for p in o])
        feats[im] = np.column_stack([uv, np.full(40, .004), np.zeros(40)]).astype(np.float32).astype(float)
        data.save_exif(im, {"camera": c.id, "width": c.width, "height": c.height})
        data.save_features(im, features.FeaturesData(feats[im], np.zeros((40, 4), np.float32), np.zeros((40, 3), int), None))
    stored = {im: {} for im in names}
    truth, want = {}, []
    for a in range(n):
        for b in range(a + 1, n):
            m = R.choice([0, 5, 30, 40])
            pts = R.sample(range(40), m)
            x, y = names[a], names[b]
            truth[x, y] = {(perm[x][p], perm[y][p]) for p in pts}
            truth[y, x] = {(j, i) for i, j in truth[x, y]}
            way = R.choice(["ab", "ba", "both", "halves"])
            rows = [[perm[x][p], perm[y][p]] for p in pts]
            back = [[j, i] for i, j in rows]
            if m and way in ("ab", "both"):
                stored[x][y] = np.array(rows)
            if m and way in ("ba", "both"):
                stored[y][x] = np.array(back)
            if m and way == "halves":
                stored[x][y] = np.array(rows[:m // 2])
                stored[y][x] = np.array(back[m // 2:])
            if m >= 30:
                want.append(sorted([a + 1, b + 1]))
    for im in names:
        data.save_matches(im, stored[im])
    e = dict(op="db", exc="", images=[], wimages=[[i + 1, camof[im]] for i, im in enumerate(names)], cams=[], wcams=[], keys=[], wkeys=[], pairs=[], wpairs=want)
    try:
        export_colmap.run_dataset(data, R.random() < .5)
        db = sqlite3.connect(path + "/colmap_export/colmap_database.db")
        rows = {r[0]: r for r in db.execute("select camera_id, model, width, height, params from cameras")}
        ids = {}
        used = {}
        for iid, name, cid in db.execute("select image_id, name, camera_id from images"):
            ids[iid] = name
            e["images"].append([names.index(name) + 1, camof[name] if used.setdefault(cid, camof[name]) == camof[name] else "?"])
        for cid, key in sorted(used.items(), key=lambda v: v[1]):
            c = over.get(key, cams[key])
            _, model, w, h, par = rows[cid]
            par = np.frombuffer(par, np.float64)
            uv, wv = [], []
            for P in X[:6]:
                a = colmap_project(model, par, P)
                p = c.project(P)
                uv += [int(round(a[0] - w / 2.)), int(round(a[1] - h / 2.))]
                wv += [int(round(p[0] * max(w, h))), int(round(p[1] * max(w, h)))]
                if abs(a[0] - w / 2. - p[0] * max(w, h)) < .01 and abs(a[1] - h / 2. - p[1] * max(w, h)) < .01:
                    uv[-2:] = wv[-2:]
            e["cams"].append([key, w, h, uv])
            e["wcams"].append([key, c.width, c.height, wv])
        for iid, r, c, blob in db.execute("select image_id, rows, cols, data from keypoints order by image_id"):
            kp = np.frombuffer(blob, np.float32).reshape(r, c)[:, :2]
            im = ids[iid]
            cc = cams[camof[im]]
            m = max(cc.width, cc.height)
            t = feats[im][:, :2] * m + np.array([cc.width / 2., cc.height / 2.])
            good = kp.shape == t.shape and np.abs(kp - t).max() < .6
            e["keys"].append([names.index(im) + 1, int(good)])
        e["keys"].sort()
        e["wkeys"] = [[i + 1, 1] for i in range(n)]
        two = {r[0]: r for r in db.execute("select pair_id, rows, cols, data from two_view_geometries")}
        for pid, r, c, blob in db.execute("select pair_id, rows, cols, data from matches"):
            M = 2 ** 31 - 1
            i2 = pid % M
            i1 = (pid - i2) // M
            m = {tuple(int(v) for v in x) for x in np.frombuffer(blob, np.uint32).reshape(r, c)}
            x, y = ids[i1], ids[i2]
            good = i1 < i2 and m <= truth[x, y] and len(m) == r and r > 10 and pid in two and two[pid][3] == blob
            e["pairs"].append([sorted([names.index(x) + 1, names.index(y) + 1]), int(good)])
        if set(two) != {r[0] for r in db.execute("select pair_id from matches")}:
            e["exc"] = "two-view geometries are not the matches"
        db.close()
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    shutil.rmtree(path)
    return [dict(kind="db", events=[e])]


def one(k, spec):
    R = rng("export%d" % k)
    spec = dict(spec)
    out = []
    kinds = [("colmap", ["perspective", "brown", "fisheye", "fisheye_opencv"]), ("bundler", ["perspective", "brown0"]), ("undistorted", ["perspective"]), ("pmvs", ["perspective"])]
    for kind, types_ in kinds:
        path = os.path.join(SCRATCH, "ex%d%s" % (k, kind))
        os.makedirs(path)
        if max(spec["rec"]) == 0:
            continue
        if kind == "undistorted" and 1 not in spec["rec"]:
            continue
        try:
            sc = Scene(R, dict(spec, accent=R.random() < .3, space=kind in ("colmap", "bundler") and R.random() < .2, axis=kind == "bundler"), path, types_, kind in ("undistorted", "pmvs"))
            sc.save(kind == "undistorted")
        except Exception as x:
            out.append(dict(op="export", fmt="scene", exc=exc_name(x) + str(x)[:300], bad=[]))
            continue
        fs = []
        if kind == "colmap":
            fs = [lambda: colmap(sc, False), lambda: colmap(sc, True), lambda: ply(sc)]
        elif kind == "bundler":
            fs = [lambda: bundler(sc, False)]
        elif kind == "undistorted":
            fs = [lambda: bundler(sc, True), lambda: nvm(sc, True, False), lambda: nvm(sc, R.random() < .7, True), lambda: mvs(sc, False), lambda: mvs(sc, True), lambda: depth_ply(sc)]
        if kind in ("pmvs", "undistorted"):
            fs += [lambda: pmvs(sc, kind == "undistorted", R.random() < .5)]
        for f in fs:
            try:
                out += f()
            except Exception as x:
                out.append(dict(op="export", fmt=kind, exc="reading the file: " + exc_name(x) + ": " + str(x)[:200], bad=[]))
        shutil.rmtree(path)
    return [dict(kind=e.get("fmt", e["op"]), events=[e]) for e in out]


specs = [s for s in inp["specs"] if max(s["rec"])]
R = rng("specs")
for _ in range(inp["rand"]):
    n = R.randrange(2, 6)
    nt = R.randrange(1, 9)
    nr = R.choice([1, 1, 2])
    rec = [R.randrange(0, nr + 1) for _ in range(n)]
    if 1 not in rec:
        rec[0] = 1
    specs.append(dict(rec=rec, obs=[10 * (i + 1) + t for i in range(n) for t in range(1, nt + 1) if R.random() < .6],
                      pts=[10 * r + t for r in (1, 2) for t in range(1, nt + 1) if R.random() < .7], only=sorted(R.sample(range(1, n + 1), R.randrange(1, n + 1)))))
cases = []
for g in fork_map(one, specs) + fork_map(database, list(range(inp["db"]))):
    cases += g or [dict(kind="export", events=[dict(op="export", fmt="?", exc="the process died", bad=[])])]
save_output(dict(cases=cases))
