"""Feature matching between image pairs."""
import os
import shutil
import numpy as np
import cv2
from vcommon import *
from opensfm import matching, features, tracking, feature_loader, pygeometry, pyfeatures, config as cfgmod
from opensfm.dataset import DataSet

inp = load_input()
R = rng("match")
NR = np.random.RandomState(SEED)
cases = []


def ev(op, fn, **k):
    e = dict(op=op, exc="", got=[], **k)
    try:
        e["got"] = fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:300]
    return e


def plus1(ms):
    return [[int(a) + 1, int(b) + 1] for a, b in ms]


def dset(n, d, hi):
    # clusters, so that close and ambiguous neighbours are common
    c = [[R.randrange(hi) for _ in range(d)] for _ in range(max(2, n // 2))]
    return [[max(0, x + R.choice([0, 0, 0, 1, -1])) for x in R.choice(c)] for _ in range(n)]


for n in range(inp["desc"]):
    evs = []
    progress({"case": "desc-%d" % n})
    for _ in range(3):
        r = R.choice([50, 60, 70, 80, 90, 95])
        conf = dict(cfgmod.default_config(), lowes_ratio=r / 100.0)
        n1, n2 = R.randrange(2, 10), R.randrange(2, 10)
        f1, f2 = dset(n1, 3, 7), dset(n2, 3, 7)
        if R.random() < .7:   # common features
            for k in range(min(n1, n2)):
                if R.random() < .6:
                    f2[k] = list(f1[k])
        a1, a2 = np.array(f1, dtype=np.float32), np.array(f2, dtype=np.float32)
        sym = R.random() < .5
        mask = [[int(R.random() < .7) for _ in f2] for _ in f1] if R.random() < .5 else []
        mk = np.array(mask, dtype=bool) if mask else None
        fn = matching.match_brute_force_symmetric if sym else matching.match_brute_force
        evs.append(ev("bf", lambda e: plus1(fn(a1, a2, conf, mk)), f1=f1, f2=f2, r=r, sym=sym, mask=mask))
        b1 = [[R.randrange(2) for _ in range(16)] for _ in range(n1)]
        b2 = [[x if R.random() < .85 else 1 - x for x in R.choice(b1)] for _ in range(n2)]
        p1, p2 = np.packbits(np.array(b1, dtype=np.uint8), axis=1), np.packbits(np.array(b2, dtype=np.uint8), axis=1)
        evs.append(ev("ham", lambda e: plus1(fn(p1, p2, conf)), f1=b1, f2=b2, r=r, sym=sym, mask=[]))
        conf["flann_algorithm"] = R.choice(["KMEANS", "KDTREE"])
        k1, k2 = a1[:8], a2[:8]

        def fl(e):
            i1, i2 = features.build_flann_index(k1, conf), features.build_flann_index(k2, conf)
            return plus1(matching.match_flann_symmetric(k1, i1, k2, i2, conf) if sym else matching.match_flann(i1, k2, conf))
        conf["flann_checks"] = 200
        evs.append(ev("flann", fl, f1=f1[:8], f2=f2[:8], r=r, sym=sym, mask=[]))
        nw = R.choice([2, 4, 8])
        w1 = [R.sample(range(nw), min(3, nw)) for _ in range(n1)]
        w2 = [R.sample(range(nw), min(3, nw)) for _ in range(n2)]
        conf["bow_num_checks"] = R.choice([1, 2, 3, 20])
        fw = matching.match_words_symmetric if sym else matching.match_words
        evs.append(ev("words", lambda e: plus1(fw(a1, np.array(w1, dtype=np.int32), a2, np.array(w2, dtype=np.int32), conf)),
                      f1=f1, f2=f2, w1=w1, w2=w2, r=r, checks=conf["bow_num_checks"], sym=sym))
    m1, m2 = [R.random() < .6 for _ in range(9)], [R.random() < .6 for _ in range(7)]
    if R.random() < .5:   # same number of features and of masked ones
        m2 = R.sample(m1, len(m1))
    ms = sorted({(R.randrange(sum(m1)), R.randrange(sum(m2))) for _ in range(5)}) if any(m1) and any(m2) else []
    evs.append(ev("unfilter", lambda e: plus1(matching.unfilter_matches(np.array(ms), np.array(m1), np.array(m2))), m1=m1, m2=m2, ms=plus1(ms)))
    cases.append({"id": "desc-%d" % n, "events": evs})

# ---------------------------------------------------------------- filters
root = os.path.join(SCRATCH, "ds")


def dataset(names, conf):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + "/images")
    os.makedirs(root + "/masks")
    for n in names:
        open(os.path.join(root, "images", n), "w").close()
    with open(root + "/config.yaml", "w") as f:
        json.dump(conf, f)
    return DataSet(root)


MAKES = {"vermont": ("VTrans_Camera", "VTrans_Camera"), "blackvue": (R.choice(["Blackvue", "BLACKVUE"]), "DR900S"), "none": ("Canon", "VTrans_Camera"), "": ("", "")}
for n in range(inp["filters"]):
    progress({"case": "filters-%d" % n})
    data = dataset(["a.jpg", "b.jpg"], {})
    mk = [R.choice(list(MAKES)) for _ in "ab"]
    for im, m in zip(["a.jpg", "b.jpg"], mk):
        data.save_exif(im, {"make": MAKES[m][0], "model": MAKES[m][1], "width": 4, "height": 3, "orientation": 1, "camera": "c"})
    pan = [R.random() < .3 for _ in "ab"]
    cams = [pygeometry.Camera.create_spherical() if p else pygeometry.Camera.create_perspective(1, 0, 0) for p in pan]
    while True:
        cnt = R.choice([0, 1, 3, 7, 20])
        st = R.choice([.1, .5, .95])

        def pt():
            return [R.randrange(-5000, 5001), R.choice([R.randrange(-3740, 3741), R.randrange(-1300, 1300)])]
        P1 = [pt() for _ in range(max(cnt, 1))]
        P2 = [[p[0] + R.randrange(-6, 7), p[1] + R.randrange(-6, 7)] if R.random() < st else pt() for p in P1]
        ms = [(i, i) for i in range(cnt)] + [(R.randrange(cnt), R.randrange(cnt)) for _ in range(cnt // 4)]
        ms = sorted(set(ms))
        d2 = [(P1[a][0] - P2[b][0]) ** 2 + (P1[a][1] - P2[b][1]) ** 2 for a, b in ms]
        edge = any(d == 100 for d in d2) or sum(d < 100 for d in d2) * 100 == 85 * len(ms) and ms
        edge = edge or any(p[1] in (-1250, 1250, -2550, 2630) for p in P1 + P2)
        if not edge:
            break
    R.shuffle(ms)
    a1, a2 = np.array(P1) * 1e-4, np.array(P2) * 1e-4
    cases.append({"id": "filters-%d" % n, "events": [ev("filters", lambda e: plus1(
        matching.apply_adhoc_filters(data, list(ms), "a.jpg", cams[0], a1, "b.jpg", cams[1], a2)),
        p1=P1, p2=P2, ms=plus1(ms), pano1=pan[0], pano2=pan[1], make1=mk[0], make2=mk[1])]})

# ---------------------------------------------------------------- storage
for n in range(inp["store"]):
    progress({"case": "store-%d" % n})
    names = R.sample(["a.jpg", "b.jpg", "c d.jpg", "é.png", "e.tif"], R.randrange(2, 6))
    data = dataset(names, {})
    refs = R.sample(names, R.randrange(1, len(names) + 1)) if R.random() < .7 else list(names)
    want = {}
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            if R.random() < .7:
                p = (a, b) if R.random() < .5 else (b, a)
                ok = a in refs or b in refs
                if not ok and R.random() < .85:
                    continue
                ms = sorted({(R.randrange(9), R.randrange(9)) for _ in range(R.choice([0, 1, 4, 9]))})
                want[p] = np.array(ms, dtype=int) if ms or R.random() < .5 else np.array([])

    e = dict(op="store", exc="", refs=refs, want=[[a, b, plus1(m)] for (a, b), m in want.items()], files=[], have=[], found=[], loaded=[])
    try:
        matching.save_matches(data, list(refs), dict(want))
    except RuntimeError as x:
        e["exc"] = exc_name(x) + ": " + str(x)
    if not e["exc"]:
        for im in names:
            if data.matches_exists(im):
                e["have"].append(im)
                e["files"] += [[im, o, plus1(m)] for o, m in data.load_matches(im).items()]
        for a, b in list(want) + [(b, a) for a, b in want]:
            e["found"].append([a, b, plus1(data.find_matches(a, b))])
        e["loaded"] = [[a, b, plus1(m)] for (a, b), m in tracking.load_matches(data, names).items()]
    cases.append({"id": "store-%d" % n, "events": [e]})

# ---------------------------------------------------------------- full pairs
W, H = 400, 300


def scene(n):
    kind = R.choice(["perspective", "perspective", "brown", "radial", "fisheye"])
    C = pygeometry.Camera
    cam = {"perspective": lambda: C.create_perspective(.9, *R.choice([(0, 0), (-.05, .01)])),
           "brown": lambda: C.create_brown(.9, 1.0, np.array([.01, -.01]), np.array([.02, .01, 0, .001, 0])),
           "radial": lambda: C.create_radial(.9, 1.0, np.array([0, .01]), np.array([.03, 0])),
           "fisheye": lambda: C.create_fisheye(.8, .01, 0)}[kind]()
    cam.id, cam.width, cam.height = "cam", W, H
    ratio = R.choice([.5, .8])
    conf = dict(processes=R.choice([1, 1, 4]), lowes_ratio=ratio, matcher_type=R.choice(["FLANN", "BRUTEFORCE", "bruteforce"]), symmetric_matching=R.random() < .7,
                flann_algorithm=R.choice(["KMEANS", "KDTREE"]), flann_checks=400)
    names = ["i%d.jpg" % k for k in range(3)]
    data = dataset(names, conf)
    poses = {}
    for k, nm in enumerate(names):
        ps = pygeometry.Pose(np.array([R.uniform(-.1, .1) for _ in range(3)]))
        ps.set_origin(np.array([1.2 * k, R.uniform(-.3, .3), R.uniform(-.3, .3)]))
        poses[nm] = ps
    X = [np.array([R.uniform(-2.5, 5), R.uniform(-2, 2), R.uniform(4, 11)]) for _ in range(R.choice([4, 70, 70]))]
    desc = {}
    use_mask = R.random() < .6
    feats = {}
    big = len(X) > 10
    ndec = R.choice([0, 6, 10]) if big else 0
    for nm in names:
        fs = []
        for pid, x in enumerate(X):
            p = cam.project(poses[nm].transform(x))
            if abs(p[0]) < .48 and abs(p[1]) < .36 and R.random() < .9:
                fs.append((pid, p))
        for pid in range(1000, 1000 + ndec):
            if R.random() < .9:
                fs.append((pid, np.array([R.uniform(-.48, .48), R.uniform(-.36, .36)])))
        for _ in range(5):
            fs.append((-1 - R.randrange(10**6), np.array([R.uniform(-.48, .48), R.uniform(-.36, .36)])))
        R.shuffle(fs)
        feats[nm] = fs
    for nm in names:
        for pid, _ in feats[nm]:
            desc.setdefault(pid, NR.randint(0, 255, 128))
    # decoys must contradict the geometry of every pair
    bear = {nm: {pid: cam.pixel_bearing(p) for pid, p in feats[nm]} for nm in names}
    for pid in range(1000, 1000 + ndec):
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                if pid in bear[a] and pid in bear[b]:
                    rel = poses[b].relative_to(poses[a])
                    t = rel.get_origin()
                    b2 = rel.get_rotation_matrix().T @ bear[b][pid]
                    nn = np.cross(t, bear[a][pid])
                    nn /= np.linalg.norm(nn)
                    n2 = np.cross(t, b2)
                    n2 /= np.linalg.norm(n2)
                    if min(abs(nn @ b2), abs(n2 @ bear[a][pid])) < .06:
                        feats[b] = [f for f in feats[b] if f[0] != pid]
                        del bear[b][pid]
    cut = {}
    for nm in names:
        cut[nm] = R.randrange(W // 2, W - 20) if use_mask and R.random() < .8 else None
        if cut[nm] is not None:
            m = np.full((H, W), 255, dtype=np.uint8)
            m[:, cut[nm]:] = 0
            cv2.imwrite(os.path.join(root, "masks", nm + ".png"), m)
            # nobody sits on the border of the mask
            feats[nm] = [f for f in feats[nm] if abs((f[1][0] + .5) * W - cut[nm]) > 2]
    data.load_mask_list()
    rows = {}
    for nm in names:
        fs = feats[nm]
        pts = np.array([[p[0], p[1], .004, 0] for _, p in fs])
        ds_ = np.array([np.clip(desc[pid] + NR.randint(-3, 4, 128), 0, 255) for pid, _ in fs])
        data.save_features(nm, features.FeaturesData(pts, ds_, np.zeros((len(fs), 3), dtype=int), None))
        data.save_exif(nm, {"make": "m", "model": "x", "width": W, "height": H, "orientation": 1, "camera": "cam"})
        rows[nm] = [{"pid": int(pid), "ok": bool(cut[nm] is None or (p[0] + .5) * W < cut[nm])} for pid, p in fs]
    data.save_camera_models({"cam": cam})
    matching.clear_cache()
    return data, names, poses, rows, cam


for n in range(inp["pairs"]):
    progress({"case": "pairs-%d" % n})
    data, names, poses, rows, cam = scene(n)
    exifs = {i: data.load_exif(i) for i in names}
    prs = [p if R.random() < .5 else p[::-1] for p in (("i0.jpg", "i1.jpg"), ("i1.jpg", "i2.jpg"), ("i0.jpg", "i2.jpg"))]
    guided = R.random() < .25
    mn = R.choice([5, 8, 12])
    ov = {"robust_matching_min_match": mn}
    evs = []
    try:
        res = matching.match_images_with_pairs(data, ov, exifs, list(prs), poses if guided else None)
        exc = "" if set(res) == set(prs) else "wrong pairs " + str(list(res))
    except Exception as x:
        res, exc = {}, exc_name(x) + ": " + str(x)
    for a, b in prs:
        evs.append(dict(op="pair", exc=exc, stage="guided" if guided else "full", a=rows[a], b=rows[b], min=mn, got=plus1(res[a, b]) if (a, b) in res else []))
    a, b = prs[0]
    keep = []

    def md(e):
        m = matching.match_descriptors(a, b, cam, cam, data, {})
        keep.append(m)
        return plus1(m)
    if len(rows[a]) > 30:
        evs.append(ev("pair", md, stage="descriptors", a=rows[a], b=rows[b], min=mn))
        if keep:
            evs.append(ev("pair", lambda e: plus1(matching.match_robust(a, b, keep[0], cam, cam, data, ov, input_is_masked=False)),
                          stage="robust", a=rows[a], b=rows[b], min=mn))
    if guided:
        feat = {i: data.load_features(i) for i in (a, b)}
        bb = [cam.pixel_bearing_many(np.array(feat[i].points[:, :2], dtype=float)) for i in (a, b)]
        e = ev("epimask", lambda e: [], a=rows[a], b=rows[b], mask=[])
        try:
            e["mask"] = matching.compute_inliers_bearing_epipolar(bb[0], bb[1], poses[b].relative_to(poses[a]), .006).astype(int).tolist()
        except Exception as x:
            e["exc"] = exc_name(x) + ": " + str(x)
        evs.append(e)
    cases.append({"id": "pairs-%d" % n, "events": evs})
save_output({"cases": cases})
