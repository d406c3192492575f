"""Submodels: splitting a dataset, what a submodel sees, aligning the reconstructions."""
import json
import math
import os
import shutil
import cv2
import numpy as np
import yaml
from vcommon import *
from recval import make_camera, rand_pose
from opensfm import align, features, geo, multiview, pygeometry, pymap, reconstruction, types
from opensfm.actions import align_submodels, create_submodels
from opensfm.dataset import DataSet
from opensfm.large import metadataset, tools

inp = load_input()
R = rng("sub")
np.random.seed(SEED)
cases = []
uid = [0]


def fresh():
    uid[0] += 1
    path = os.path.join(SCRATCH, "sub%d_%d" % (os.getpid(), uid[0]))
    os.makedirs(path)
    return path


def vec(v):
    return [q(float(x)) for x in np.ravel(v)]


def put(path, rel, text):
    p = os.path.join(path, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def ecef(lat, lon):
    return np.array(geo.ecef_from_lla(lat, lon, 0.))


# ---------------------------------------------------------------- splitting
EXTRA = ["camera_models.json", "reference_lla.json", "exif", "features", "matches", "masks", "mask_list.txt", "segmentations", "reports/features", "reports/features.json", "reports/matches.json"]


def make_dataset(path, names, lla, have, rr):
    for im in names:
        put(path, "images/" + im, "pixels of " + im)
    put(path, "camera_models.json", json.dumps({"cam": {"projection_type": "perspective", "width": 100, "height": 80, "focal": .8, "k1": 0., "k2": 0.}}))
    for im, p in zip(names, lla):
        x = {"camera": "cam", "width": 100, "height": 80, "orientation": 1, "capture_time": float(names.index(im)), "make": "m", "model": im}
        if p is not None:
            x["gps"] = {"latitude": p[0], "longitude": p[1], "altitude": 3., "dop": 5.}
        elif rr.random() < .3:
            x["gps"] = {}
        put(path, "exif/" + im + ".exif", json.dumps(x))
        if "features" in have:
            put(path, "features/" + im + ".features.npz", "features of " + im)
        if "matches" in have:
            put(path, "matches/" + im + "_matches.pkl.gz", "matches of " + im)
        if "masks" in have:
            put(path, "masks/" + im + ".png", "mask of " + im)
        if "segmentations" in have:
            put(path, "segmentations/" + im + ".png", "labels of " + im)
        if "reports" in have:
            put(path, "reports/features/" + im + ".json", "report of " + im)
    if "masks" in have:
        put(path, "mask_list.txt", "some masks")
    if "reports" in have:
        put(path, "reports/features.json", "features report")
        put(path, "reports/matches.json", "matches report")


def tree(path, rel):
    p = os.path.join(path, rel)
    if os.path.isdir(p):
        return {f: open(os.path.join(p, f)).read() for f in sorted(os.listdir(p))}
    return open(p).read() if os.path.isfile(p) else None


class Stop(Exception):
    pass


def run_split(path, names, lla, groups, gnames, over, size, stop, blob, layout, have):
    """One run of the command; groups: list of group numbers (1-based) or None."""
    cfg = {"submodel_overlap": over, "submodel_size": size}
    tmpl = "submodels/submodel_%04d"
    if layout:
        tmpl = "parts/p%02d"
        cfg.update(submodels_relpath="parts", submodel_relpath_template=tmpl, submodel_images_relpath_template=tmpl + "/images")
    put(path, "config.yaml", yaml.dump(cfg))
    gp = os.path.join(path, "image_groups.txt")
    if os.path.exists(gp):
        os.remove(gp)
    if groups:
        order = list(range(len(names)))
        R.shuffle(order)
        put(path, "image_groups.txt", "".join("%s %s\n" % (names[i], gnames[groups[i]]) for i in order))
    gps = [int(p is not None) for p in lla]
    n = len(names)
    X = [None if p is None else ecef(*p) for p in lla]
    dist = [[0 if X[i] is None or X[j] is None else min(int(round(10 * np.linalg.norm(X[i] - X[j]))), 10 ** 8) for j in range(n)] for i in range(n)]
    e = dict(op="split", exc="", gps=gps, group=list(groups) if groups else [], over=int(round(10 * over)), tol=30, size=size, dist=dist, blob=blob or [],
             label=[-1] * n, sub=[], saved=[], geo=[], geo0=[], geoxy=1, paths=0, dirs=0, opened=[], folder=[], same=[], listed=[])
    progress({k: e[k] for k in ("op", "gps", "group", "over", "size")})
    where = {im: k for k, im in enumerate(names)}
    ix = lambda im: where.get(str(im), -1) + 1
    real = os.symlink
    if stop < 99:
        def symlink(src, dst, *a, **k):
            if ("/" + tmpl % stop + "/") in dst + "/":
                raise Stop()
            return real(src, dst, *a, **k)
        os.symlink = symlink
    try:
        create_submodels.run_dataset(DataSet(path))
    except Stop:
        return
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
        cases.append(dict(kind="split", events=[e]))
        return
    finally:
        os.symlink = real
    try:
        meta = metadataset.MetaDataSet(path)
        e["listed"] = [ix(im) for im, _, _ in meta.images_with_gps()]
        for im, lat, lon in meta.images_with_gps():
            if (lat, lon) != tuple(lla[where[im]]):
                e["geoxy"] = 0
        images, positions, labels, centers = meta.load_clusters()
        for im, l in zip(images, labels):
            e["label"][ix(im) - 1] = int(l)
        for l in set(int(x) for x in labels):
            pts = np.array([lla[where[str(im)]] for im, x in zip(images, labels) if int(x) == l])
            if np.abs(pts.mean(0) - centers[l]).max() > 1e-4:
                e["geoxy"] = 0
        e["saved"] = [[ix(im) for im in c] for c in meta.load_clusters_with_neighbors()]
        sub = meta.get_submodel_paths()
        e["paths"] = len(sub)
        root = os.path.dirname(os.path.join(path, tmpl % 0))
        e["dirs"] = sum(os.path.isdir(os.path.join(root, f)) for f in os.listdir(root))
        for p in sub:
            lines = [l.strip() for l in open(os.path.join(p, "image_list.txt"))]
            e["sub"].append([ix(os.path.basename(l)) for l in lines])
            d = DataSet(p)
            e["opened"].append([ix(im) for im in d.images()])
            e["folder"].append(sorted(ix(f) for f in os.listdir(os.path.join(p, "images"))))
            for im in d.images():
                if open(d.image_files[im]).read() != "pixels of " + im:
                    e["same"].append("image")
                if im in where and d.load_exif(im)["model"] != im:
                    e["same"].append("exif")
            if open(os.path.join(p, "config.yaml")).read() != open(os.path.join(path, "config.yaml")).read() or d.config["submodel_size"] != size:
                e["same"].append("config")
            for f in EXTRA:
                if tree(p, f) != tree(path, f):
                    e["same"].append(f)
            if not os.path.isdir(os.path.join(p, "reports")):
                e["same"].append("reports")
            r = d.load_reference().lat
            if r != DataSet(path).load_reference().lat:
                e["same"].append("reference")
            # what a submodel computes stays its own
            d.save_reconstruction([], "reconstruction.json")
            if os.path.exists(os.path.join(path, "reconstruction.json")):
                e["same"].append("writes to the dataset")
        for key, fn in (("geo", "clusters_with_neighbors.geojson"), ("geo0", "clusters.geojson")):
            g = json.load(open(os.path.join(root, fn)))
            out = {}
            seq = []
            for f in g["features"]:
                i = ix(f["properties"]["name"])
                out.setdefault(f["properties"]["submodel"], []).append(i)
                seq.append([i, f["properties"]["submodel"]])
                lat, lon = lla[i - 1]
                if [f["geometry"]["type"]] + f["geometry"]["coordinates"] != ["Point", lon, lat]:
                    e["geoxy"] = 0
            e[key] = [out.get(k, []) for k in range(len(e["sub"]))] if key == "geo" else [s for i, s in sorted(seq)]
        for im in names:
            if open(os.path.join(path, "images", im)).read() != "pixels of " + im:
                e["same"].append("an image of the dataset was changed")
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind="split", events=[e]))


def split_case(rr, pts, runs, blob=None, size=80):
    path = fresh()
    n = len(pts)
    names = ["%s%d.jpg" % (rr.choice(["im", "a", "Z", "b_"]), i) for i in range(n)]
    rr.shuffle(names)
    have = [x for x in ("features", "matches", "masks", "segmentations", "reports") if rr.random() < .7]
    make_dataset(path, names, pts, have, rr)
    # DataSet lists images/ in any order: ours are numbered by name
    layout = rr.random() < .3
    gn = [None] + sorted(["g%d" % k for k in range(8)])
    for r in runs:
        run_split(path, names, pts, r.get("group"), gn, r["over"], r.get("size", size), r.get("stop", 99), blob, layout, have)
    shutil.rmtree(path)


def offset(base, east, north):
    c = geo.TopocentricConverter(base[0], base[1], 0.)
    lat, lon, _ = c.to_lla(east, north, 0.)
    return (float(lat), float(lon))


def base_point():
    return (R.choice([0., 12.3, -33.4, 55.7, 68.]) + R.random(), R.choice([0., 12.4, -70.6, 139.7, 170.]) + R.random())


for b in inp["split"]:
    base = base_point()
    ang = R.uniform(0, 2 * math.pi)
    pts = [None if p == 0 else offset(base, 20. * p * math.cos(ang), 20. * p * math.sin(ang)) for p in b["pos"]]
    # group numbers are kept; a group name file lists every image
    split_case(R, pts, [dict(group=r["group"], over=20. * r["over"] + 10., stop=r["stop"]) for r in b["runs"]])
for n in range(inp["randsplit"]):
    base = base_point()
    kind = R.choice(["road", "field", "blobs", "blobs"])
    m = R.randrange(2, 16)
    blob = None
    if kind == "road":
        xy = [(k * R.uniform(8, 20), R.uniform(-3, 3)) for k in range(m)]
        size = R.randrange(1, m + 2)
    elif kind == "field":
        xy = [(R.uniform(0, 150), R.uniform(0, 150)) for k in range(m)]
        size = R.randrange(1, m + 2)
    else:
        nb = R.randrange(1, 4)
        each = R.randrange(2, 5)
        xy, blob = [], []
        for g in range(nb):
            ox, oy = 3000. * g, 500. * (g % 2)
            for _ in range(each):
                xy.append((ox + R.uniform(0, 40), oy + R.uniform(0, 40)))
                blob.append(g)
        size = each
    pts = [offset(base, *p) for p in xy]
    if blob is None:
        for k in range(len(pts)):
            if R.random() < .15 and sum(p is not None for p in pts) > 1:
                pts[k] = None
    runs = []
    for _ in range(R.choice([1, 1, 2])):
        r = dict(over=R.choice([5., 15., 30., 60., 400.]), size=size)
        if blob is None and R.random() < .4:
            r["group"] = [R.randrange(1, 4) for _ in pts]
            if R.random() < .5:  # every group has an image with GPS
                r["group"] = [R.randrange(1, 3) for _ in pts]
        runs.append(r)
    split_case(R, pts, runs, blob)

# ---------------------------------------------------------------- alignment


def rotvec(s):
    v = np.array([R.gauss(0, 1) for _ in range(3)])
    return v / np.linalg.norm(v) * s


def sim(s, ang, t):
    return R.uniform(1 - s, 1 + s), cv2.Rodrigues(rotvec(R.uniform(0, ang)))[0], np.array([R.uniform(-t, t) for _ in range(3)])


def world(n, rigs=False):
    """A road of n shots looking around, and points near it."""
    pos = [np.array([6. * k + R.uniform(-1, 1), R.uniform(-4, 4), R.uniform(0, 2)]) for k in range(n)]
    rot = [cv2.Rodrigues(rotvec(R.uniform(0, 2.5)))[0] for _ in range(n)]
    pts = [np.array([R.uniform(-5, 6. * n + 5), R.uniform(-15, 15), R.uniform(0, 10)]) for _ in range(25 * n)]
    return pos, rot, pts


def part(pos, rot, pts, shots, points, T, gps_noise=0., gps_sd=1., rig=False):
    """The reconstruction of some shots, moved by the inverse of T (world = T(part))."""
    s, A, b = T
    rec = types.Reconstruction()
    rec.add_camera(make_camera(R, "cam", "perspective"))
    inv = lambda X: A.T @ (X - b) / s
    if rig:
        rc = pymap.RigCamera(pygeometry.Pose(np.array([0., .1, 0.]), np.array([.4, 0., .1]) / s), "second")
        rec.add_rig_camera(rc)
        rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), "first"))
    insts = {}
    for k in shots:
        p = pygeometry.Pose()
        p.set_rotation_matrix(rot[k] @ A)
        p.set_origin(inv(pos[k]))
        if rig:
            iid = "inst%d" % (k // 2)
            cam = ["first", "second"][k % 2]
            if iid not in insts:
                insts[iid] = rec.add_rig_instance(pymap.RigInstance(iid))
                insts[iid].pose = rec.rig_cameras[cam].pose.inverse().compose(p)
                keep = insts[iid].pose
            ip = pygeometry.Pose(insts[iid].pose.rotation, insts[iid].pose.translation)
            sh = rec.create_shot("im%02d" % k, "cam", p, cam, iid)
            rec.rig_instances[iid].pose = ip
        else:
            sh = rec.create_shot("im%02d" % k, "cam", p)
        g = pos[k] + np.array([R.gauss(0, 1) for _ in range(3)]) * gps_noise
        m = pymap.ShotMeasurements()
        m.gps_position.value = g
        m.gps_accuracy.value = gps_sd
        sh.metadata = m
    for t, k in points:
        rec.create_point(t, inv(pts[k]))
    return rec


def save_parts(path, parts, tms):
    for k, (recs, tm) in enumerate(zip(parts, tms)):
        p = os.path.join(path, "submodels/submodel_%04d" % k)
        os.makedirs(p + "/images")
        ids = sorted({s for r in recs for s in r.shots})
        put(p, "image_list.txt", "".join("images/%s\n" % i for i in ids) or "images/none\n")
        put(p, "reference_lla.json", json.dumps({"latitude": 10., "longitude": 20., "altitude": 0.}))
        d = DataSet(p)
        if recs:
            d.save_reconstruction(recs)
        d.save_tracks_manager(tm)
    put(path, "images/im00.jpg", "x")


def shot_rows(rec, pos, rot, tag):
    out = []
    for sid, s in rec.shots.items():
        k = int(sid[2:])
        out.append([tag + sid, vec(s.pose.get_origin()), vec(pos[k]), vec(s.pose.get_rotation_matrix()), vec(rot[k])])
    return out


def make_parts(n, rig, style, gps_noise, amount):
    pos, rot, pts = world(n)
    if rig:
        rc = pygeometry.Pose(np.array([0., .1, 0.]), np.array([.4, 0., .1]))
        for k in range(1, n, 2):
            ip = pygeometry.Pose()
            ip.set_rotation_matrix(rot[k - 1])
            ip.set_origin(pos[k - 1])
            p = rc.compose(ip)
            rot[k], pos[k] = p.get_rotation_matrix(), p.get_origin()
    npart = R.choice([1, 2, 2, 3])
    size = max(6, n // npart + 4)
    starts = [0] if npart == 1 else [int(round(j * (n - size) / (npart - 1))) for j in range(npart)]
    parts, tms, Ts, keys = [], [], [], []
    for j, a in enumerate(starts):
        a -= a % 2
        shots = list(range(max(a, 0), min(a + size, n)))
        tm = pymap.TracksManager()
        recs, tl = [], []
        chunks = [shots]
        if style == "split" and len(shots) >= 8 and not rig:
            h = len(shots) // 2
            chunks = [shots[:h + 2], shots[h - 2:]]
        for ch in chunks:
            T = sim(amount[0], amount[1], amount[2])
            seen = [k for k in range(len(pts)) if pos[ch[0]][0] - 5 <= pts[k][0] <= pos[ch[-1]][0] + 5 and R.random() < .8]
            points = []
            for k in seen:
                t = "t%d_%d_%d" % (j, len(recs), k)
                points.append((t, k))
                # seen by the shots nearby
                for s in ch:
                    if abs(pos[s][0] - pts[k][0]) < 15:
                        tm.add_observation("im%02d" % s, t, pymap.Observation(.1, .1, .004, 1, 2, 3, k))
            recs.append(part(pos, rot, pts, ch, points, T, gps_noise, R.choice([.5, 1., 5.]), rig))
            tl.append(T)
        parts.append(recs)
        tms.append(tm)
        Ts.append(tl)
    return pos, rot, pts, parts, tms, Ts


def rec_snapshot(rec):
    return {s: (vec(x.pose.rotation), vec(x.pose.translation)) for s, x in rec.shots.items()}, {p: vec(x.coordinates) for p, x in rec.points.items()}


def align_case(k, spec):
    global R
    R = rng("align%d" % k)
    np.random.seed(SEED * 1000 + k)
    mode, rig, style = spec
    path = fresh()
    noise = R.choice([.5, 2.]) if mode == "agree" else 0.
    n = R.randrange(10, 22)
    n += n % 2
    pos, rot, pts, parts, tms, Ts = make_parts(n, rig, style, noise, (.03, .04, 1.))
    extra = R.random() < .2 and mode != "apply"
    if extra:  # a submodel without a reconstruction in between
        parts.insert(1, [])
        tms.insert(1, pymap.TracksManager())
        Ts.insert(1, [])
    save_parts(path, parts, tms)
    before = [tree(os.path.join(path, "submodels/submodel_%04d" % j), "reconstruction.json") for j in range(len(parts))]
    e = dict(op="align" if mode in ("cmd", "soft", "hard", "points") else mode, exc="", mode=mode)
    progress(e)
    try:
        meta = metadataset.MetaDataSet(path)
        if mode in ("cmd", "agree"):
            align_submodels.run_dataset(DataSet(path))
            keys = None
        elif mode == "apply":
            keys = {}
            for j, recs in enumerate(parts):
                for i in range(len(recs)):
                    if R.random() < .8:
                        keys[tools.PartialReconstruction(os.path.join(path, "submodels/submodel_%04d" % j), i)] = sim(.5, 3., 100.)
            order = list(keys)
            R.shuffle(order)
            keys = {x: keys[x] for x in order}
            tools.apply_transformations(keys)
        else:
            rs = tools.load_reconstruction_shots(meta)
            e["keys"] = [[os.path.basename(x.submodel_path), x.idx] for x in rs]
            ts = tools.align_reconstructions(rs, tools.partial_reconstruction_name, mode == "points", {"soft": "soft_camera_constraint", "hard": "hard_camera_constraint", "points": R.choice(["soft_camera_constraint", "hard_camera_constraint"])}[mode])
            tools.apply_transformations(ts)
        same = 1
        rows, prow, err = [], [], []
        got = {}
        for j, recs in enumerate(parts):
            p = os.path.join(path, "submodels/submodel_%04d" % j)
            if tree(p, "reconstruction.json") != before[j]:
                same = 0
            if not recs:
                continue
            if mode == "apply" and not any(x.submodel_path == p for x in keys):
                if os.path.exists(os.path.join(p, "reconstruction.aligned.json")):
                    err.append(["written for an untouched submodel", 99999])
                continue
            al = DataSet(p).load_reconstruction("reconstruction.aligned.json")
            if len(al) != len(recs):
                raise RuntimeError("%d reconstructions instead of %d" % (len(al), len(recs)))
            for i, r in enumerate(al):
                if set(r.shots) != set(recs[i].shots) or set(r.points) != set(recs[i].points):
                    raise RuntimeError("shots or points of the aligned reconstruction")
                rows += shot_rows(r, pos, rot, "%d.%d." % (j, i))
                for t in list(r.points)[:20]:
                    prow.append([t, vec(r.points[t].coordinates), vec(pts[int(t.split("_")[2])])])
                for sid in r.shots:
                    got.setdefault(sid, []).append(r.shots[sid].pose.get_origin())
                if mode == "apply":
                    x = keys.get(tools.PartialReconstruction(p, i), (1., np.eye(3), np.zeros(3)))
                    s, A, b = x
                    o = recs[i]
                    for sid in r.shots:
                        w = s * A @ o.shots[sid].pose.get_origin() + b
                        err.append(["shot position", q(np.abs(w - r.shots[sid].pose.get_origin()).max(), 1e4)])
                        err.append(["shot rotation", q(np.abs(o.shots[sid].pose.get_rotation_matrix() @ A.T - r.shots[sid].pose.get_rotation_matrix()).max(), 1e4)])
                    for t in r.points:
                        err.append(["point position", q(np.abs(s * A @ o.points[t].coordinates + b - r.points[t].coordinates).max(), 1e4)])
        e["untouched"] = same
        if mode == "agree":
            ref = [max(np.abs(a - b).max() for a in v for b in v) for v in got.values()]
            e["gap"] = [[sid, q(max(np.linalg.norm(a - b) for a in v for b in v), 1000)] for sid, v in got.items()]
            e["gps"] = [[sid, q(np.linalg.norm(v[0] - pos[int(sid[2:])]), 1000)] for sid, v in got.items()]
            e["tol"], e["gtol"] = 20, int(5000 * noise) + 500
        elif mode == "apply":
            e["err"] = err
        else:
            e["shots"], e["points"] = rows, prow
            e["want"] = [["submodel_%04d" % j, i] for j, recs in enumerate(parts) for i in range(len(recs))]
            e.setdefault("keys", e["want"])
            e["tol"], e["rtol"], e["ptol"] = 200, 100, 500
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    shutil.rmtree(path)
    return dict(kind=e["op"], events=[e])


specs = []
for n in range(inp["align"]):
    specs.append((R.choice(["cmd", "soft", "hard", "points", "apply", "apply", "agree"]), R.random() < .25, R.choice(["one", "one", "split"])))
cases += [c for c in fork_map(align_case, specs) if c]

for n in range(inp["small"]):
    # connected reconstructions
    m = R.randrange(1, 6)
    shots = [sorted(R.sample(range(1, 10), R.randrange(0, 5))) for _ in range(m)]
    e = dict(op="graph", exc="", shots=shots, edges=[])
    try:
        ks = [tools.PartialReconstruction("p%d" % (k // 2), k % 2) for k in range(m)]
        e["edges"] = [sorted(ks.index(x) + 1 for x in c) for c in tools.connected_reconstructions({ks[k]: {"s%d" % s: None for s in shots[k]} for k in range(m)})]
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind="graph", events=[e]))
    s, A, b = sim(.9, 3.1, 50.)
    e = dict(op="inv", exc="", err=[])
    try:
        si, Ai, bi = tools.invert_similarity(s, A, b)
        for _ in range(3):
            x = np.array([R.uniform(-50, 50) for _ in range(3)])
            e["err"].append(q(np.abs(si * Ai @ (s * A @ x + b) + bi - x).max(), 1e6))
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind="inv", events=[e]))
    M = np.array([[R.gauss(0, 1) for _ in range(6)] for _ in range(6)])
    C = M @ M.T + .01 * np.eye(6)
    want = C
    if R.random() < .3:
        C = np.diag([R.choice([-1., .5, 0., 1e-3]) for _ in range(6)])
        want = np.diag(np.diag(C).clip(1e-8, None)) if (np.diag(C) <= 0).any() else C
    e = dict(op="scale", exc="", err=0)
    try:
        S = tools.scale_matrix(C)
        e["err"] = q(np.abs(S @ want @ S.T - np.eye(6)).max(), 1e6)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind="scale", events=[e]))
    # common tracks of two reconstructions
    recs, tms, obs, pts = [], [], [], []
    for j in range(2):
        rec = types.Reconstruction()
        rec.add_camera(make_camera(R, "cam", "perspective"))
        for s in R.sample(range(1, 5), R.randrange(1, 4)):
            rec.create_shot("s%d" % s, "cam")
        tm = pymap.TracksManager()
        rows = []
        for s in range(1, 5):
            if R.random() < .7:
                feats = R.sample(range(1, 7), R.randrange(1, 6))
                tr = R.sample(range(1, 8), len(feats))
                for f, t in zip(feats, tr):
                    tm.add_observation("s%d" % s, "%d" % (10 * j + t), pymap.Observation(.1, .1, .004, 1, 2, 3, f))
                    rows.append([s, 10 * j + t, f])
        ps = [10 * j + t for t in range(1, 8) if R.random() < .7]
        for t in ps:
            rec.create_point(str(t), np.zeros(3))
        recs.append(rec)
        tms.append(tm)
        obs.append(rows)
        pts.append(ps)
    e = dict(op="common", exc="", s1=sorted(int(s[1:]) for s in recs[0].shots), s2=sorted(int(s[1:]) for s in recs[1].shots), o1=obs[0], o2=obs[1], p1=pts[0], p2=pts[1], got=[])
    try:
        e["got"] = [[int(a), int(b)] for a, b in reconstruction.compute_common_tracks(recs[0], recs[1], tms[0], tms[1])]
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind="common", events=[e]))
for n in range(inp["resect"]):
    m = R.choice([3, 5, 6, 7, 8, 20, 40])
    s, A, b = sim(.5, 3., 30.)
    r1, r2 = types.Reconstruction(), types.Reconstruction()
    for r in (r1, r2):
        r.add_camera(make_camera(R, "cam", "perspective"))
        r.create_shot("s1", "cam")
    t1, t2 = pymap.TracksManager(), pymap.TracksManager()
    out = R.choice([0., 0., .3])
    want = []
    for k in range(m):
        X = np.array([R.uniform(-20, 20) for _ in range(3)])
        bad = R.random() < out
        r1.create_point("a%d" % k, X)
        r2.create_point("b%d" % k, s * A @ X + b + (np.array([R.uniform(20, 40) * R.choice([-1, 1]) for _ in range(3)]) if bad else 0))
        if not bad:
            want.append([k, k])
        t1.add_observation("s1", "a%d" % k, pymap.Observation(.1, .1, .004, 1, 2, 3, k))
        t2.add_observation("s1", "b%d" % k, pymap.Observation(.1, .1, .004, 1, 2, 3, k))
    e = dict(op="resect", exc="", n=m, good=len(want), want=want, inl=[], err=0, ok=0)
    try:
        np.random.seed(SEED * 7 + n)
        ok, T, inl = reconstruction.resect_reconstruction(r1, r2, t1, t2, .3, 5)
        e["ok"] = int(bool(ok))
        e["inl"] = [[int(x[1:]), int(y[1:])] for x, y in inl]
        if ok:
            W = np.eye(4)
            W[:3, :3], W[:3, 3] = s * A, b
            e["err"] = q(np.abs(np.array(T) - W).max(), 1e6)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind="resect", events=[e]))
save_output(dict(cases=cases))
