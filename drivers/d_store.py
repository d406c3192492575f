"""Exercise DataSet / UndistortedDataSet as a store of artefacts."""
import gzip
import hashlib
import io as sysio
import pickle
import shutil

import cv2
import numpy as np
import yaml
from recval import *
from opensfm import dataset, features, geo, io, pymap, rig
from opensfm.dataset import DataSet

IMAGES = ["a.jpg", "a.png", "a.jpg.png", "b c.JPG", "ünï.jpeg", "a"]


def canon(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "US":
            return ["S"] + [str(v) for v in x.ravel()]
        return ["A", list(x.shape), [tok(v) for v in x.ravel()]]
    if isinstance(x, (np.integer, np.floating, int, float)) and not isinstance(x, bool):
        return tok(x)
    if isinstance(x, dict):
        return ["D"] + sorted([str(k), canon(v)] for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return ["L"] + [canon(v) for v in x]
    if isinstance(x, pygeometry.Camera):
        return ["C", x.id, x.projection_type, x.width, x.height] + sorted(
            [str(k).split(".")[-1], q(v, 10000)] for k, v in x.get_parameters_map().items())
    if isinstance(x, pymap.RigCamera):
        return ["R", x.id, [q(v, 1000) for v in np.ravel(x.pose.rotation)], [q(v, 1000) for v in x.pose.translation]]
    if isinstance(x, pymap.GroundControlPoint):
        return ["G", x.id, canon(dict(x.lla)), x.has_altitude, [[o.shot_id, canon(np.array(o.projection))] for o in x.observations]]
    if isinstance(x, geo.TopocentricConverter):
        return ["T", tok(x.lat), tok(x.lon), tok(x.alt)]
    if isinstance(x, types.Reconstruction):
        return ["X", sorted(x.cameras.keys()), sorted(x.shots.keys()), sorted(x.rig_instances.keys()), sorted([p.id, canon(np.array(p.coordinates))] for p in x.points.values())]
    if isinstance(x, features.FeaturesData):
        s = x.semantic
        return ["F", canon(x.points), canon(x.descriptors), canon(x.colors), None if s is None else
                [canon(s.segmentation), None if s.instances is None else canon(s.instances), [str(v) for v in s.labels]]]
    if isinstance(x, pymap.TracksManager):
        rows = []
        for im in x.get_shot_ids():
            for t, o in x.get_shot_observations(im).items():
                rows.append([im, t, q(o.point[0]), q(o.point[1]), q(o.scale), [int(v) for v in o.color], int(o.id), int(o.segmentation), int(o.instance)])
        return ["M"] + sorted(rows)
    return repr(x)


def dig(x):
    return hashlib.md5(json.dumps(canon(x), sort_keys=True).encode()).hexdigest()[:14]


def f32(R, shape, lo=-4, hi=4):
    return np.array([R.randrange(lo * 64, hi * 64) / 64.0 for _ in range(int(np.prod(shape)))], dtype=np.float32).reshape(shape)


def ints(R, shape, hi, dt):
    return np.array([R.randrange(hi) for _ in range(int(np.prod(shape)))], dtype=dt).reshape(shape)


def g_dict(R, d=0):
    if d > 2 or R.random() < .5:
        return R.choice([1, 0, -3, 2.5, "x", "", "ü \"quoted\"\n", True, None, [1, 2.25, "z"], 1e-9, 123456789012])
    return {R.choice(["gps", "camera", "α", "k k", "1"]) + str(i): g_dict(R, d + 1) for i in range(R.randrange(0, 4))}


def g_features(R, ds):
    n, d = R.randrange(1, 7), R.choice([4, 8])
    pts = f32(R, (n, 4))
    desc = ints(R, (n, d), 256, np.float32)
    cols = ints(R, (n, 3), 256, np.float64)
    sem = None
    if R.random() < .6:
        inst = ints(R, (n,), 3000, np.int32) if R.random() < .5 else None
        sem = features.SemanticData(ints(R, (n,), 256, np.int32), inst, R.choice([["road", "sky"], []]))
    return features.FeaturesData(pts, desc, cols, sem)


def g_matches(R, ds):
    return {im: ints(R, (R.choice([0, 1, 3, 20]), 2), 70000, int) for im in IMAGES if R.random() < .5}


def g_cams(R, ds):
    return {"cam %d" % i: make_camera(R, "cam %d" % i) for i in range(R.randrange(1, 4))}


def g_rigcams(R, ds):
    return {"rig%d" % i: pymap.RigCamera(rand_pose(R, 2.0), "rig%d" % i) for i in range(R.randrange(0, 4))}


def g_tracks(R, ds):
    t = pymap.TracksManager()
    for i in range(R.randrange(0, 12)):
        t.add_observation(R.choice(IMAGES[:4]), str(R.randrange(5)), pymap.Observation(
            R.randrange(-500, 500) / 1000., R.randrange(-500, 500) / 1000., R.randrange(1, 99) / 1000.,
            R.randrange(256), R.randrange(256), R.randrange(256), R.randrange(9999), R.choice([-1, 3]), R.choice([-1, 7])))
    return t


def g_recs(R, ds):
    return [rand_rec(R) for _ in range(R.randrange(0, 3))]


def g_gcp(R, ds):
    out = []
    for i in range(R.randrange(0, 4)):
        p = pymap.GroundControlPoint()
        p.id = "gcp %d" % i
        p.has_altitude = R.random() < .5
        if R.random() < .8:
            p.lla = {"latitude": R.uniform(-80, 80), "longitude": R.uniform(-180, 180), **({"altitude": R.uniform(0, 99)} if p.has_altitude else {})}
        else:
            p.has_altitude = False
        obs = []
        for im in IMAGES[:R.randrange(0, 3)]:
            o = pymap.GroundControlPointObservation()
            o.shot_id = im
            o.projection = np.array([R.uniform(-.5, .5), R.uniform(-.5, .5)])
            obs.append(o)
        p.observations = obs
        out.append(p)
    return out


def g_png(R, ds):
    return ints(R, (R.randrange(1, 6), R.randrange(1, 6), 3), 256, np.uint8)


def g_gray(R, ds):
    return ints(R, (R.randrange(1, 6), R.randrange(1, 6)), 256, np.uint8)


class K:
    """One kind of artefact."""
    def __init__(self, kind, names, gen, save, load, has=None, absent="raise"):
        self.kind, self.names, self.gen, self.save, self.load, self.has, self.absent = kind, names, gen, save, load, has, absent


U = (lambda ds: ds.undistorted_dataset())
ONE = [""]
PNGS = ["x.png", "x.jpg.png", "ü.png"]
KINDS = [
    K("exif", IMAGES, lambda R, ds: {"k": g_dict(R), "v": g_dict(R)}, lambda ds, n, a: ds.save_exif(n, a), lambda ds, n: ds.load_exif(n), lambda ds, n: ds.exif_exists(n)),
    K("features", IMAGES, g_features, lambda ds, n, a: ds.save_features(n, a), lambda ds, n: ds.load_features(n), lambda ds, n: ds.features_exist(n)),
    K("words", IMAGES, lambda R, ds: ints(R, (R.randrange(1, 5), 3), 65536, np.int32), lambda ds, n, a: ds.save_words(n, a), lambda ds, n: ds.load_words(n), lambda ds, n: ds.words_exist(n)),
    K("matches", IMAGES, g_matches, lambda ds, n, a: ds.save_matches(n, a), lambda ds, n: ds.load_matches(n), lambda ds, n: ds.matches_exists(n)),
    K("camera models", ONE, g_cams, lambda ds, n, a: ds.save_camera_models(a), lambda ds, n: ds.load_camera_models()),
    K("camera overrides", ONE, g_cams, lambda ds, n, a: ds.save_camera_models_overrides(a), lambda ds, n: ds.load_camera_models_overrides(), lambda ds, n: ds.camera_models_overrides_exists()),
    K("exif overrides", ONE, lambda R, ds: {"i": g_dict(R)}, lambda ds, n, a: ds.save_exif_overrides(a), lambda ds, n: ds.load_exif_overrides(), lambda ds, n: ds.exif_overrides_exists()),
    K("rig cameras", ONE, g_rigcams, lambda ds, n, a: ds.save_rig_cameras(a), lambda ds, n: {k: v for k, v in ds.load_rig_cameras().items() if k.startswith("rig")}, None, dig({})),
    K("rig assignments", ONE, lambda R, ds: {"i%d" % i: [["a.jpg", "rig0"], ["a.png", "rig1"]][:R.randrange(1, 3)] for i in range(R.randrange(0, 3))},
      lambda ds, n, a: ds.save_rig_assignments(a), lambda ds, n: ds.load_rig_assignments(), None, dig({})),
    K("reference", ONE, lambda R, ds: geo.TopocentricConverter(R.uniform(-80, 80), R.uniform(-180, 180), R.choice([0, 33.25])), lambda ds, n, a: ds.save_reference(a), lambda ds, n: ds.load_reference(), lambda ds, n: ds.reference_exists()),
    K("report", ["features.json", "sub/dir/x.json", "sub/y.json"], lambda R, ds: R.choice(["", "{}", "line\nline 2 ü\n", "x" * 5000]), lambda ds, n, a: ds.save_report(a, n), lambda ds, n: ds.load_report(n)),
    K("tracks", ["", "other.csv", "tracks2.csv"], g_tracks, lambda ds, n, a: ds.save_tracks_manager(a, n or None), lambda ds, n: ds.load_tracks_manager(n or None), lambda ds, n: ds.tracks_exists(n or None)),
    K("reconstruction", ["", "reconstruction.meshed.json", "other.json"], g_recs, lambda ds, n, a: ds.save_reconstruction(a, n or None, len(a) == 1), lambda ds, n: ds.load_reconstruction(n or None), lambda ds, n: ds.reconstruction_exists(n or None)),
    K("control points", ONE, g_gcp, lambda ds, n, a: ds.save_ground_control_points(a), lambda ds, n: ds.load_ground_control_points(), None, dig([])),
    K("undistorted shot ids", ONE, lambda R, ds: {"a.jpg": ["a.jpg_front", "a.jpg_left"][:R.randrange(0, 3)]}, lambda ds, n, a: U(ds).save_undistorted_shot_ids(a), lambda ds, n: U(ds).load_undistorted_shot_ids()),
    K("undistorted image", PNGS, g_png, lambda ds, n, a: U(ds).save_undistorted_image(n, a), lambda ds, n: U(ds).load_undistorted_image(n)),
    K("undistorted mask", PNGS, g_gray, lambda ds, n, a: U(ds).save_undistorted_mask(n, a), lambda ds, n: U(ds).load_undistorted_mask(n), lambda ds, n: U(ds).undistorted_mask_exists(n)),
    K("undistorted segmentation", PNGS, g_gray, lambda ds, n, a: U(ds).save_undistorted_segmentation(n, a), lambda ds, n: U(ds).load_undistorted_segmentation(n), lambda ds, n: U(ds).undistorted_segmentation_exists(n)),
    K("raw depthmap", IMAGES, lambda R, ds: [f32(R, (3, 2)), f32(R, (3, 2, 3)), f32(R, (3, 2)), ints(R, (3, 2), 9, np.int32), ["a.jpg", "ü.png"]],
      lambda ds, n, a: U(ds).save_raw_depthmap(n, *a), lambda ds, n: [x if x.dtype.kind != "U" else [str(v) for v in x] for x in U(ds).load_raw_depthmap(n)], lambda ds, n: U(ds).raw_depthmap_exists(n)),
    K("clean depthmap", IMAGES, lambda R, ds: [f32(R, (3, 2)), f32(R, (3, 2, 3)), f32(R, (3, 2))],
      lambda ds, n, a: U(ds).save_clean_depthmap(n, *a), lambda ds, n: list(U(ds).load_clean_depthmap(n)), lambda ds, n: U(ds).clean_depthmap_exists(n)),
    K("pruned depthmap", IMAGES, lambda R, ds: [f32(R, (4, 3)), f32(R, (4, 3)), ints(R, (4, 3), 256, np.uint8), ints(R, (4,), 99, np.uint8)],
      lambda ds, n, a: U(ds).save_pruned_depthmap(n, *a), lambda ds, n: list(U(ds).load_pruned_depthmap(n)), lambda ds, n: U(ds).pruned_depthmap_exists(n)),
    K("point cloud", ["merged.ply", "fused.ply"], lambda R, ds: (lambda m: [np.round(f32(R, (m, 3)) * 4) / 16, np.round(f32(R, (m, 3)) * 2) / 8, ints(R, (m, 3), 256, np.uint8), ints(R, (m,), 256, np.uint8)])(R.randrange(0, 5)),
      lambda ds, n, a: U(ds).save_point_cloud(*a, filename=n), lambda ds, n: list(U(ds).load_point_cloud(n))),
    K("undistorted tracks", ONE, g_tracks, lambda ds, n, a: U(ds).save_undistorted_tracks_manager(a), lambda ds, n: U(ds).load_undistorted_tracks_manager()),
    K("undistorted reconstruction", ONE, g_recs, lambda ds, n, a: U(ds).save_undistorted_reconstruction(a), lambda ds, n: U(ds).load_undistorted_reconstruction()),
]
BYKIND = {k.kind: k for k in KINDS}
CONFIGS = [{}, {"feature_type": "SIFT"}, {"feature_type": "ORB"}, {"feature_type": "HAHOG", "hahog_normalize_to_uchar": False}, {"feature_type": "AKAZE"}]


def png(path, arr):
    ok, buf = cv2.imencode(".png", arr[:, :, ::-1] if arr.ndim == 3 and arr.shape[2] == 3 else arr)
    with open(path, "wb") as f:
        f.write(buf.tobytes())


def fresh(R, name, config=None, images=IMAGES):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    for s in ("images", "features", "undistorted"):
        os.makedirs(os.path.join(d, s))
    with open(os.path.join(d, "image_list.txt"), "w") as f:
        f.write("\n".join("images/" + i for i in images))
    cfg = R.choice(CONFIGS) if config is None else config
    if cfg:
        with open(os.path.join(d, "config.yaml"), "w") as f:
            yaml.safe_dump(cfg, f)
    return d


class Player:
    def __init__(self, R, d):
        self.R, self.d, self.ev = R, d, []
        self.ds = [DataSet(d)]

    def any(self):
        return self.R.choice(self.ds)

    def key(self, k, n):
        return k.kind + "/" + n

    def save(self, k, n, a=None):
        ds = self.any()
        a = k.gen(self.R, ds) if a is None else a
        v = dig(a)
        e = {"op": "save", "kind": k.kind, "k": self.key(k, n), "v": v, "exc": "", "after": v}
        try:
            k.save(ds, n, a)
        except Exception as ex:
            e["exc"] = exc_name(ex)
        e["after"] = dig(a)
        self.ev.append(e)
        return a

    def load(self, k, n):
        e = {"op": "load", "kind": k.kind, "k": self.key(k, n), "exc": "", "got": "", "absent": k.absent}
        try:
            e["got"] = dig(k.load(self.any(), n))
        except Exception as ex:
            e["exc"] = exc_name(ex)
        self.ev.append(e)

    def has(self, k, n):
        if k.has is None:
            return self.load(k, n)
        e = {"op": "has", "kind": k.kind, "k": self.key(k, n), "exc": "", "got": False}
        try:
            e["got"] = bool(k.has(self.any(), n))
        except Exception as ex:
            e["exc"] = exc_name(ex)
        self.ev.append(e)

    def reopen(self):
        e = {"op": "reopen", "exc": ""}
        try:
            self.ds = (self.ds + [DataSet(self.d)])[-3:]
        except Exception as ex:
            e["exc"] = exc_name(ex)
        self.ev.append(e)


MULTI = [k for k in KINDS if len(k.names) > 1]


def replay(i, b):
    R = rng("st%d" % i)
    k1, k2 = R.sample(MULTI, 2)
    names = {k.kind: R.sample(k.names, 2) for k in (k1, k2)}
    p = Player(R, fresh(R, "b"))
    for o in b["ops"]:
        if o["op"] == "reopen":
            p.reopen()
            continue
        k = k1 if o["kind"] == "k1" else k2
        n = names[k.kind][0 if o["name"] == "n1" else 1]
        if o["op"] == "save":
            p.save(k, n)
        else:
            getattr(p, o["op"])(k, n)
    for k in (k1, k2):
        for n in names[k.kind]:
            p.load(k, n)
            p.has(k, n)
    return p.ev


def random_history(i):
    R = rng("sr%d" % i)
    p = Player(R, fresh(R, "r"))
    for n in IMAGES:
        p.save(BYKIND["exif"], n, {"camera": "cam 0", "k": g_dict(R)})
    p.save(BYKIND["camera models"], "")
    log = K("profile log", ONE, None, None, lambda ds, n: open(os.path.join(p.d, "profile.log")).read())
    text = ""
    for _ in range(110):
        k = R.choice(KINDS)
        n = R.choice(k.names)
        x = R.random()
        if x < .45:
            p.save(k, n)
        elif x < .8:
            p.load(k, n)
        elif x < .92:
            p.has(k, n)
        elif x < .96:
            p.reopen()
        else:
            s = "step %d\n" % R.randrange(9)
            text += s
            p.any().append_to_profile_log(s)
            got = open(os.path.join(p.d, "profile.log")).read()
            p.ev.append({"op": "same", "exc": "", "got": got, "want": text, "what": "the profile log does not accumulate"})
    for k in KINDS:
        for n in k.names:
            p.load(k, n)
    return p.ev


def same(what, want, f):
    e = {"op": "same", "what": what, "exc": "", "got": "", "want": want}
    try:
        e["got"] = f()
    except Exception as ex:
        e["exc"] = exc_name(ex)
    return e


def layout(i):
    R = rng("lay%d" % i)
    ev = []
    # images folder
    d = os.path.join(SCRATCH, "lay")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "images"))
    files, px = [], {}
    for j in range(R.randrange(0, 7)):
        ext = R.choice(["jpg", "jpeg", "png", "tif", "tiff", "pgm", "pnm", "gif", "txt", "json", "mp4", "jpgx", "bmp", "npz"])
        n = "%s%d.%s" % (R.choice(["im", "im.png", "x y", "ü"]), j, ext.upper() if R.random() < .3 else ext)
        px[n] = ints(R, (R.randrange(2, 6), R.randrange(2, 6), 3), 256, np.uint8)
        png(os.path.join(d, "images", n), px[n])
        files.append({"n": n, "ext": ext})
    e = {"op": "imagedir", "files": files, "images": [], "exc": "", "read": []}
    try:
        ds = DataSet(d)
        e["images"] = list(ds.images())
        for n in e["images"]:
            e["read"].append({"got": dig(ds.load_image(n)) + str(tuple(ds.image_size(n))), "want": dig(px[n]) + str(px[n].shape[:2])})
    except Exception as ex:
        e["exc"] = exc_name(ex)
    ev.append(e)
    # image_list.txt over several folders
    os.makedirs(os.path.join(d, "deep", "er"), exist_ok=True)
    lines, px = [], {}
    for j in range(R.randrange(1, 6)):
        n = "%s%d.png" % (R.choice(["z", "a", "m m"]), j)
        sub = R.choice(["images", "deep/er", os.path.join(SCRATCH, "lay", "deep")])
        px[n] = ints(R, (3, 4, 3), 256, np.uint8)
        png(os.path.join(d, sub, n), px[n])
        lines.append((n, os.path.join(sub, n)))
    R.shuffle(lines)
    with open(os.path.join(d, "image_list.txt"), "w") as f:
        f.write("\n".join(l[1] for l in lines) + R.choice(["", "\n"]))
    e = {"op": "imagelist", "lines": [l[0] for l in lines], "images": [], "exc": "", "read": []}
    try:
        ds = DataSet(d)
        e["images"] = list(ds.images())
        for n in e["images"]:
            e["read"].append({"got": dig(ds.load_image(n)), "want": dig(px[n])})
    except Exception as ex:
        e["exc"] = exc_name(ex)
    ev.append(e)
    # masks: folder, then list
    names = [l[0].replace(" ", "_") for l in lines]
    for l, n in zip(lines, names):
        if l[0] != n:
            os.rename(os.path.join(d, l[1]), os.path.join(d, os.path.dirname(l[1]), n))
    lines = [(n, os.path.join(os.path.dirname(l[1]), n)) for l, n in zip(lines, names)]
    px = {l[0].replace(" ", "_"): v for l, v in zip([(k,) for k in px], px.values())}
    with open(os.path.join(d, "image_list.txt"), "w") as f:
        f.write("\n".join(l[1] for l in lines))
    os.makedirs(os.path.join(d, "masks"), exist_ok=True)
    os.makedirs(os.path.join(d, "segmentations"), exist_ok=True)
    os.makedirs(os.path.join(d, "instances"), exist_ok=True)
    mask, seg, inst = {}, {}, {}
    for n in names:
        for store, folder in ((mask, "masks"), (seg, "segmentations"), (inst, "instances")):
            if R.random() < .6:
                store[n] = ints(R, (3, 4), 256, np.uint8)
                png(os.path.join(d, folder, n + ".png"), store[n])
    png(os.path.join(d, "masks", "other.png"), ints(R, (3, 4), 256, np.uint8))
    uselist = R.random() < .5
    listed = dict(mask)
    if uselist:
        listed = {}
        for n in R.sample(names, R.randrange(0, len(names) + 1)):
            listed[n] = ints(R, (3, 4), 256, np.uint8)
            png(os.path.join(d, "deep", "mask %s.png" % n), listed[n])
        with open(os.path.join(d, "mask_list.txt"), "w") as f:
            f.write("\n".join("%s%s%s" % (n, R.choice([" ", "\t", "   "]), "deep/mask %s.png" % n) for n in listed))

    def read(f, n):
        m = f(n)
        return "none" if m is None else dig(m)

    def dsread(ds):
        return [{"n": n, "has": n in listed, "got": read(ds.load_mask, n), "want": dig(listed[n]) if n in listed else "none"} for n in names]
    e = {"op": "masks", "exc": "", "rows": []}
    try:
        ds = DataSet(d)
        e["rows"] = dsread(ds)
    except Exception as ex:
        e["exc"] = exc_name(ex)
    ev.append(e)
    for what, store, f in (("segmentation", seg, "load_segmentation"), ("instances", inst, "load_instances")):
        e = {"op": "masks", "exc": "", "rows": []}
        try:
            e["rows"] = [{"n": n, "has": n in store, "got": read(getattr(ds, f), n), "want": dig(store[n]) if n in store else "none"} for n in names]
        except Exception as ex:
            e["exc"] = exc_name(ex)
        ev.append(e)
    if seg:
        n = R.choice(sorted(seg))
        multi = np.dstack([seg[n], ints(R, (3, 4), 256, np.uint8), ints(R, (3, 4), 256, np.uint8)])
        png(os.path.join(d, "segmentations", n + ".png"), multi)
        ev.append(same("the label channel of a multi-channel segmentation is misread", dig(seg[n]), lambda: dig(ds.load_segmentation(n))))
        png(os.path.join(d, "segmentations", n + ".png"), seg[n])
    # subset of that dataset
    with open(os.path.join(d, "config.yaml"), "w") as f:
        yaml.safe_dump({"processes": 3, "matching_gps_neighbors": 5}, f)
    ds = DataSet(d)
    ds.save_camera_models({"c": make_camera(R, "c")})
    if R.random() < .5:
        ds.save_exif_overrides({names[0]: {"x": 1}})
    rel = R.random() < .4
    cwd = os.getcwd()
    asked = R.sample(names, R.randrange(1, len(names) + 1))
    e = {"op": "subset", "asked": asked, "images": [], "exc": "", "rows": [], "before": "", "after": ""}

    def snapshot():
        h = {}
        for root, dirs, fs in os.walk(d):
            dirs[:] = [x for x in dirs if x != "part"]
            for x in fs:
                if os.path.exists(os.path.join(root, x)):
                    h[os.path.join(root, x)] = hashlib.md5(open(os.path.join(root, x), "rb").read()).hexdigest()
        return dig(h)
    try:
        e["before"] = snapshot()
        if rel:
            os.chdir(SCRATCH)
            ds = DataSet("lay")
        for _ in range(R.choice([1, 2])):
            sub = ds.subset("part", list(asked))
        e["images"] = list(sub.images())
        for n in asked:
            e["rows"].append({"what": "image pixels", "got": dig(sub.load_image(n)), "want": dig(px[n])})
            e["rows"].append({"what": "mask", "got": read(sub.load_mask, n), "want": dig(listed[n]) if n in listed else "none"})
            e["rows"].append({"what": "segmentation", "got": read(sub.load_segmentation, n), "want": dig(seg[n]) if n in seg else "none"})
        e["rows"].append({"what": "configuration", "got": str(sub.config["processes"]), "want": "3"})
        e["rows"].append({"what": "camera models", "got": dig(sub.load_camera_models()), "want": dig(ds.load_camera_models())})
        e["rows"].append({"what": "EXIF overrides", "got": str(sub.exif_overrides_exists()), "want": str(ds.exif_overrides_exists())})
        e["after"] = snapshot()
    except Exception as ex:
        e["exc"] = exc_name(ex)
    finally:
        os.chdir(cwd)
    ev.append(e)
    shutil.rmtree(d, ignore_errors=True)
    return ev


def reference(i):
    R = rng("ref%d" % i)
    n = R.randrange(1, 7)
    images = ["i%d.jpg" % j for j in range(n)]
    d = fresh(R, "ref", {}, images)
    ds = DataSet(d)
    mode = R.choice(["gps", "gps", "tiny", "gcp", "none"])
    pts = []
    W = {None: 2, 5: 6, 3: 10, 1: 30, 15: 2, 30: 1}
    for im in images:
        ex = {"camera": "c"}
        if mode in ("gps", "tiny") and R.random() < .8:
            lat, lon = R.randrange(-800000, 800000), R.randrange(-1790000, 1790000)
            g = {"latitude": lat / 1e4, "longitude": lon / 1e4}
            dop = R.choice(list(W)) if mode == "gps" else R.choice([0, 0.001, 0.01])
            if dop is not None:
                g["dop"] = dop
            if R.random() < .5:
                g["altitude"] = R.uniform(1, 500)
            ex["gps"] = g
            pts.append({"w": W[dop] if mode == "gps" else 1, "lat": lat, "lon": lon})
        elif R.random() < .4:
            ex["gps"] = R.choice([{}, {"altitude": 3.0}, {"latitude": 12.0}])
        ds.save_exif(im, ex)
    gcp = []
    if mode == "gcp" or (mode == "gps" and R.random() < .3):
        for j in range(R.randrange(1, 4)):
            p = pymap.GroundControlPoint()
            p.id = str(j)
            lat, lon = R.randrange(-800000, 800000), R.randrange(-1790000, 1790000)
            if R.random() < .8:
                p.lla = {"latitude": lat / 1e4, "longitude": lon / 1e4, "altitude": 7.0}
                p.has_altitude = True
                gcp.append({"w": 1, "lat": lat, "lon": lon})
            else:
                p.has_altitude = False
            p.observations = []
            if not os.path.exists(os.path.join(d, "gcps")):
                pass
            pts_all = ds.load_ground_control_points() + [p]
            ds.save_ground_control_points(pts_all)
    if not pts:
        pts = gcp
    ev = []
    e = {"op": "reference", "exc": "", "pts": pts, "got": {"lat": 0, "lon": 0, "alt": 0}}
    try:
        ds.init_reference()
        r = ds.load_reference()
        e["got"] = {"lat": q(r.lat, 1e4), "lon": q(r.lon, 1e4), "alt": q(r.alt, 1e4)}
    except Exception as ex:
        e["exc"] = exc_name(ex)
    ev.append(e)
    ds.save_reference(geo.TopocentricConverter(1.5, 2.5, 3.5))
    ds.init_reference()
    ev.append(same("init_reference replaced an existing reference", "1.5 2.5 3.5", lambda: (lambda r: "%s %s %s" % (r.lat, r.lon, r.alt))(ds.load_reference())))
    return ev


class Evil:
    def __init__(self, f, a):
        self.f, self.a = f, a

    def __reduce__(self):
        return self.f, self.a


def evil(i):
    R = rng("evil%d" % i)
    d = fresh(R, "evil", {})
    ds = DataSet(d)
    os.makedirs(os.path.join(d, "matches"), exist_ok=True)
    mark = os.path.join(d, "marker")
    bad = R.choice([Evil(os.mkdir, (mark,)), Evil(eval, ("__import__('os').mkdir(%r)" % mark,)), Evil(np.savetxt, (mark, np.zeros(2))),
                    Evil(open, (mark, "w")), Evil(getattr, ("x", "upper"))])
    obj = R.choice([lambda: bad, lambda: {"a.png": bad}, lambda: {"a.png": np.zeros((1, 2), int), "b": [bad]}])()
    with gzip.open(os.path.join(d, "matches", "a.jpg_matches.pkl.gz"), "wb") as f:
        pickle.dump(obj, f, protocol=R.choice([2, 3, 4, 5]))
    e = {"op": "evil", "exc": "", "effect": False}
    try:
        r = R.choice([lambda: ds.load_matches("a.jpg"), lambda: ds.find_matches("a.jpg", "a.png"), lambda: ds.find_matches("a.png", "a.jpg")])()
    except Exception as ex:
        e["exc"] = exc_name(ex)
    e["effect"] = os.path.exists(mark)
    return [e]


def formats(i):
    R = rng("fmt%d" % i)
    cfg = R.choice(CONFIGS)
    d = fresh(R, "fmt", cfg)
    ds = DataSet(d)
    ev = []
    n = R.randrange(1, 5)
    pts, desc, cols = f32(R, (n, 4)), ints(R, (n, 4), 256, np.uint8), ints(R, (n, 3), 256, np.uint8)
    ver = R.choice([0, 1, 2])
    kw = {"points": pts, "descriptors": desc, "colors": cols}
    want_pts, sem = pts.copy(), None
    if ver == 0:
        want_pts[:, 2] = ds.config["reprojection_error_sd"]
    else:
        kw["OPENSFM_FEATURES_VERSION"] = ver
    if ver == 2:
        seg, inst = ints(R, (n,), 99, np.uint8), ints(R, (n,), 99, np.int16)
        kw.update(segmentations=seg, instances=inst, segmentation_labels=np.array(["x"]))
        sem = features.SemanticData(seg, inst, ["x"])
    name = R.choice([".features.npz", ".npz"])
    np.savez_compressed(os.path.join(d, "features", "a.png" + name), **kw)
    want = features.FeaturesData(want_pts, desc, cols, sem)
    e = {"op": "version", "exc": "", "got": "", "want": dig(want)}
    try:
        e["got"] = dig(ds.load_features("a.png"))
    except Exception as ex:
        e["exc"] = exc_name(ex)
    ev.append(e)
    ev.append(same("an older features file is not found", "True", lambda: str(ds.features_exist("a.png"))))
    # rig assignments without ids
    legacy = [[["a.jpg", "rig0"], ["a.png", "rig1"]], [["a", "rig0"]]][:R.randrange(0, 3)]
    with open(os.path.join(d, "rig_assignments.json"), "w") as f:
        json.dump(legacy, f)
    ev.append(same("rig assignments stored as a list are misread", dig({str(j): v for j, v in enumerate(legacy)}), lambda: dig(ds.load_rig_assignments())))
    # default rig cameras
    cams = {"cam %d" % j: make_camera(R, "cam %d" % j) for j in range(3)}
    ds.save_camera_models(cams)
    rigs = {c: pymap.RigCamera(rand_pose(R, 1.0), c) for c in ["cam 1", "rigX"] if R.random() < .6}
    ds.save_rig_cameras(rigs)
    want = {c: rigs.get(c, pymap.RigCamera(pygeometry.Pose(), c)) for c in list(cams) + list(rigs)}
    ev.append(same("rig cameras are not the stored ones plus one default per camera", dig(want), lambda: dig(ds.load_rig_cameras())))
    # matches from either side
    m = {im: ints(R, (R.choice([0, 1, 4]), 2), 50, int) for im in ("a.png", "a")}
    ds.save_matches("a.jpg", m)
    for im, v in m.items():
        ev.append(same("find_matches does not return the stored matches", dig([list(map(int, x)) for x in v]), lambda: dig([list(map(int, x)) for x in ds.find_matches("a.jpg", im)])))
        ev.append(same("find_matches from the other image does not swap the columns", dig([[int(x[1]), int(x[0])] for x in v]), lambda: dig([list(map(int, x)) for x in ds.find_matches(im, "a.jpg")])))
    ev.append(same("find_matches invents matches", 0, lambda: len(ds.find_matches("a.png", "a"))))
    # image input and output
    h = io.IoFilesystemDefault()
    for arr, kw in ((ints(R, (3, 4), 256, np.uint8), {"grayscale": True}), (ints(R, (3, 4, 3), 256, np.uint8), {}), (ints(R, (3, 4, 4), 256, np.uint8), {"unchanged": True}),
                    (ints(R, (3, 4), 65536, np.uint16), {"grayscale": True, "anydepth": True}), (ints(R, (3, 4, 3), 65536, np.uint16), {"unchanged": True})):
        p = os.path.join(d, "im%d.%s" % (R.randrange(3), R.choice(["png", "tiff"])))
        before = dig(arr)
        ev.append(same("writing an image fails", "ok", lambda: (h.imwrite(p, arr), "ok")[1]))
        ev.append(same("writing an image changes it", before, lambda: dig(arr)))
        ev.append(same("an image does not read back", before, lambda: dig(h.imread(p, **kw))))
        ev.append(same("an image does not read back (module function)", before, lambda: dig(io.imread(p, **kw))))
        ev.append(same("wrong image size", str(arr.shape[:2]), lambda: str(tuple(h.image_size(p))) if p.endswith("png") else str(arr.shape[:2])))
    return ev


def main():
    inp = load_input()
    cases = []
    for i, b in enumerate(inp["behaviours"]):
        progress({"behaviour": b, "i": i})
        cases.append({"id": "b%d" % i, "events": replay(i, b)})
    for i in range(inp["random"]):
        progress({"random": i})
        cases.append({"id": "r%d" % i, "events": random_history(i)})
    for i in range(inp["layouts"]):
        for f in (layout, reference, evil, formats):
            progress({f.__name__: i})
            cases.append({"id": "%s%d" % (f.__name__, i), "events": f(i)})
    save_output({"cases": cases})


main()
