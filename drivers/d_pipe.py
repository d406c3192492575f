"""The steps of the pipeline run through the command line on rendered scenes,
with interruptions and images that arrive later."""
import hashlib
import json
import os
import random
import shutil
import sys
import cv2
import numpy as np
from vcommon import *
import contextlib
from opensfm import commands, dataset, pygeometry, types
from opensfm.dataset import DataSet

inp = load_input()
SEED = inp["seed"]


class Stop(BaseException):
    pass


def texture(R):
    t = np.full((400, 400, 3), 40, np.uint8)
    for _ in range(350):
        c = tuple(R.randrange(255) for _ in range(3))
        p = (R.randrange(400), R.randrange(400))
        s = R.randrange(4, 25)
        if R.random() < .5:
            cv2.rectangle(t, p, (p[0] + s, p[1] + s), c, -1)
        else:
            cv2.circle(t, p, s // 2 + 1, c, -1)
    return t


# planes of the scene: corner and the two directions of the texture in metres per pixel
PLANES = [([-5.5, -4.5, 0.], [11, 0, 0.], [0, 9, 0.]), ([-3, -2, 1.2], [2.5, 0, .4], [0, 2.5, 0.]), ([.5, 0., .8], [2.2, .3, 0], [-.2, 2.2, .5])]
PLANES = [(np.array(p), np.array(u) / 400, np.array(v) / 400) for p, u, v in PLANES]


# the camera looks along z, x to the right, y down
def render(tex, o, r, f, w, h):
    img = np.zeros((h, w, 3), np.uint8)
    m = max(w, h)
    K = np.array([[f * m, 0, (w - 1) / 2], [0, f * m, (h - 1) / 2], [0, 0, 1.]])
    t = -r @ o
    for (p, u, v), tx in zip(PLANES, tex):
        H = K @ np.column_stack([r @ u, r @ v, r @ p + t])
        im = cv2.warpPerspective(tx, H, (w, h))
        ok = cv2.warpPerspective(np.full(tx.shape[:2], 255, np.uint8), H, (w, h)) > 127
        img[ok] = im[ok]
    return img


def scene(R, names, sizes):
    tex = [texture(R) for _ in PLANES]
    out = {}
    n = len(names)
    for k, name in enumerate(names):
        o = np.array([-1.6 + 3.2 * k / max(1, n - 1) + R.uniform(-.1, .1), R.uniform(-.6, .6), 5.5 + R.uniform(-.3, .3)])
        z = np.array([R.uniform(-.2, .2), R.uniform(-.2, .2), 0]) - o  # towards the middle of the scene
        z /= np.linalg.norm(z)
        x = np.cross([0, -1., 0], z)
        x /= np.linalg.norm(x)
        r = cv2.Rodrigues(z * R.uniform(-.1, .1))[0] @ np.array([x, np.cross(z, x), z]).T
        r = r.T
        w, h = sizes[k % len(sizes)]
        out[name] = (o, r, render(tex, o, r, .9, w, h))
    return out


@contextlib.contextmanager
def opened(path, kind=""):
    yield DataSet(path)


def command(path, *args):
    argv = sys.argv
    sys.argv = ["opensfm", args[0], path] + list(args[1:])
    try:
        commands.command_runner(commands.opensfm_commands, opened, dataset_choices=["opensfm"])
    finally:
        sys.argv = argv


WRITES = {"extract_metadata": "save_exif", "detect_features": "save_features", "match_features": "save_matches", "create_tracks": "save_tracks_manager", "reconstruct": "save_reconstruction"}


@contextlib.contextmanager
def stopped(op, k):
    """The k-th write of the step does not happen, nor anything after it."""
    if not k:
        yield
        return
    name = WRITES[op]
    old = getattr(DataSet, name)
    left = [k]

    def save(self, *a, **b):
        left[0] -= 1
        if left[0] <= 0:
            raise Stop()
        return old(self, *a, **b)
    setattr(DataSet, name, save)
    try:
        yield
    finally:
        setattr(DataSet, name, old)


def digest(p):
    with open(p, "rb") as f:
        return hashlib.md5(f.read()).hexdigest()


def listing(path, sub, cut):
    d = os.path.join(path, sub)
    return {f[:-len(cut)]: digest(os.path.join(d, f)) for f in (os.listdir(d) if os.path.isdir(d) else []) if f.endswith(cut)}


def similarity(A, B):
    """Of the points A onto B: the largest distance left."""
    a, b = A.mean(0), B.mean(0)
    H = (A - a).T @ (B - b)
    U, S, V = np.linalg.svd(H)
    D = np.diag([1, 1, np.sign(np.linalg.det(V.T @ U.T))])
    r = V.T @ D @ U.T
    s = np.trace(np.diag(S) @ D) / max(1e-12, ((A - a) ** 2).sum())
    return s, r, b - s * r @ a


def measure(rec, sc):
    """Largest error of the camera positions (in mm, scene about 2 m wide), of the
    headings (in mrad) after the similarity of the positions and directions, and
    the share of the points near a plane of the scene (per mille)."""
    ids = sorted(rec.shots)
    A, B = [], []
    base = max(np.linalg.norm(sc[i][0] - sc[j][0]) for i in ids for j in ids)
    mine = max(np.linalg.norm(rec.shots[i].pose.get_origin() - rec.shots[j].pose.get_origin()) for i in ids for j in ids)
    for i in ids:
        p = rec.shots[i].pose
        for (o, r, u) in ((p.get_origin(), p.get_rotation_matrix(), mine),):
            A += [o] + [o + u * r.T[:, k] for k in range(3)]
        o, r, _ = sc[i]
        B += [o] + [o + base * r.T[:, k] for k in range(3)]
    s, r, t = similarity(np.array(A), np.array(B))
    pos = max(np.linalg.norm(s * r @ rec.shots[i].pose.get_origin() + t - sc[i][0]) for i in ids) / base
    ang = max(np.linalg.norm(cv2.Rodrigues(rec.shots[i].pose.get_rotation_matrix() @ r.T @ sc[i][1].T)[0]) for i in ids)
    near = tot = 0
    for p in rec.points.values():
        X = s * r @ np.array(p.coordinates) + t
        tot += 1
        for (c, u, v) in PLANES:
            n = np.cross(u, v)
            n /= np.linalg.norm(n)
            if abs((X - c).dot(n)) < .5:
                near += 1
                break
    return dict(n=len(ids), pos=q(pos, 1000), ang=q(ang, 1000), near=q(near / max(1, tot), 1000), points=tot)


def look(path, sc):
    d = DataSet(path)
    e = dict(images=sorted(d.images()), order=list(d.images()))
    e["exif"] = sorted(listing(path, "exif", ".exif"))
    e["feats"] = sorted(listing(path, "features", ".features.npz"))
    e["cams"] = sorted(d.load_camera_models()) if os.path.exists(path + "/camera_models.json") else []
    e["camof"] = sorted([i, d.load_exif(i)["camera"]] for i in e["exif"])
    e["files"] = sorted(listing(path, "matches", "_matches.pkl.gz"))
    pairs, full = [], 1
    nf = {i: len(d.load_features(i).points) for i in e["feats"]}
    for i in e["files"]:
        for j, m in d.load_matches(i).items():
            if len(m):
                pairs.append(sorted([i, j]) + [len(m)])
                if i not in nf or j not in nf or m[:, 0].max() >= nf[i] or m[:, 1].max() >= nf[j] or m.min() < 0:
                    full = 0
    e["pairs"], e["index"] = sorted(pairs), full
    e["tracks"], e["ntracks"], e["stale"] = [], 0, 1
    if os.path.exists(path + "/tracks.csv"):
        tm = d.load_tracks_manager()
        e["tracks"] = sorted(tm.get_shot_ids())
        e["ntracks"] = tm.num_tracks()
    e["rec"], e["meas"] = [], []
    if os.path.exists(path + "/reconstruction.json"):
        for r in d.load_reconstruction():
            e["rec"].append(sorted(r.shots))
            e["meas"].append(measure(r, sc))
    return e


def poor(e):
    return len(e["rec"]) != 1 or any(m["pos"] > 80 or m["ang"] > 80 or m["near"] < 600 for m in e["meas"]) or set(e["rec"][0]) != set(e["tracks"])


def leave_out(path, image):
    """A partial reconstruction without the image."""
    d = DataSet(path)
    rec = d.load_reconstruction()[0]
    rec.remove_shot(image)
    d.save_reconstruction([rec], "partial.json")
    return ["--input", "partial.json", "--output", "reconstruction.json"]


def again(path, op, dropped, sc):
    """Matching is randomized: the steps from it once more in a copy of the dataset."""
    copy = path + "x"
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(path, copy)
    shutil.rmtree(copy + "/matches")
    e = dict(rec=[], meas=[])
    try:
        for s in ("match_features", "create_tracks", "reconstruct"):
            command(copy, s)
        if op == "extend_reconstruction":
            command(copy, op, *leave_out(copy, dropped))
        e = look(copy, sc)
    except BaseException:
        pass
    shutil.rmtree(copy)
    return dict(rec=e["rec"], meas=e["meas"])


def history(n, h):
    R = random.Random("%s/%s/%d" % (SEED, "pipe", n))
    names = {"a": "a.png", "b": "b.png", "c": "c.png", "d": "d.png"}
    many = R.random() < .3
    first = [names[x] for x in "abc"] + (["e.png"] if many else [])
    late = [names["d"]] + (["f.png"] if many else [])
    sizes = R.choice([[(320, 240)], [(320, 240), (300, 240)], [(240, 320)]])
    sc = scene(R, sorted(first + late), sizes)
    path = os.path.join(SCRATCH, "pipe%d" % n)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path + "/images")

    def arrive(ims):
        for i in ims:
            cv2.imwrite(path + "/images/" + i, sc[i][2])
    arrive(first)
    procs = R.choice([1, 1, 3])
    with open(path + "/config.yaml", "w") as f:
        f.write("processes: %d\nfeature_process_size: 320\nfeature_min_frames: 300\ndefault_focal_prior: 0.9\noptimize_camera_parameters: no\n" % procs)
        if R.random() < .5:
            f.write("feature_type: %s\n" % R.choice(["HAHOG", "SIFT"]))
    events = []
    before = look(path, sc)
    for b in h:
        op, k = b["op"], b["k"]
        e = dict(op=op, k=k, exc="", dropped="", kept=1)
        progress(e)
        olde = listing(path, "exif", ".exif")
        oldf = listing(path, "features", ".features.npz")
        if op == "arrive":
            arrive(late)
        else:
            extra = []
            if op == "extend_reconstruction":
                recs = DataSet(path).load_reconstruction()
                if len(recs) != 1 or len(recs[0].shots) < 3:
                    continue
                e["dropped"] = R.choice(sorted(recs[0].shots))
                extra = leave_out(path, e["dropped"])
            with open(path + "/config.yaml") as f:
                text = f.read()
            with open(path + "/config.yaml", "w") as f:  # an interruption between threads is not part of this
                f.write(text.replace("processes: %d" % procs, "processes: 1") if k else text)
            try:
                with stopped(op, k):
                    command(path, op, *extra)
                if k:
                    e["exc"] = "the step did not write that often"
            except Stop:
                pass
            except BaseException as x:
                e["exc"] = exc_name(x) + ": " + str(x)[:200]
            with open(path + "/config.yaml", "w") as f:
                f.write(text)
        now = look(path, sc)
        newe = listing(path, "exif", ".exif")
        newf = listing(path, "features", ".features.npz")
        e["kept"] = int(all(newe.get(i) == v for i, v in olde.items()) and all(newf.get(i) == v for i, v in oldf.items()))
        e.update(now)
        e["again"] = []
        if op in ("reconstruct", "extend_reconstruction") and not k and not e["exc"] and e["feats"] == e["tracks"]:
            while poor(e) and len(e["again"]) < 3:
                o = again(path, op, e["dropped"], sc)
                e["again"].append(o)
                if o["rec"] and not poor(dict(o, tracks=e["tracks"])):
                    break
        events.append(e)
    shutil.rmtree(path)
    return dict(kind="pipe", first=sorted(first), late=sorted(late), order=before["order"], events=events)


save_output(dict(cases=fork_map(history, inp["pipe"])))
