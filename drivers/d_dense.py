"""Depth maps: estimation, cleaning, pruning, the whole computation; meshes."""
import itertools
import math
import os
import shutil
import cv2
import numpy as np
from vcommon import *
from recval import make_camera, rand_pose
from opensfm import config as cfgm, dataset, dense, io, mesh, pydense, pygeometry, pymap, types
from opensfm.dataset import DataSet, UndistortedDataSet

inp = load_input()
R = rng("dense")
cases = []


def case(kind, fn, **k):
    e = dict(op=kind, exc="")
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind=kind, events=[e]))


# signed permutations with determinant 1
ROTS = []
for p in itertools.permutations(range(3)):
    for s in itertools.product([1, -1], repeat=3):
        A = np.zeros((3, 3), int)
        for i in range(3):
            A[i, p[i]] = s[i]
        if round(np.linalg.det(A)) == 1:
            ROTS.append(A.tolist())
NORMALS = [(0, 0, -1, 1), (3, 0, -4, 5), (0, -4, -3, 5), (2, -1, -2, 3), (-1, 2, -2, 3), (-3, 0, -4, 5)]


def kmat(v):
    return np.array([[v["fx"], 0, v["cx"]], [0, v["fy"], v["cy"]], [0, 0, 1]], float)


def rand_views(w, h, n):
    """Views that mostly look at the same things, with integer geometry."""
    views = []
    for k in range(n):
        fx, fy = R.choice([(2, 2), (4, 4), (2, 4), (4, 2), (1, 1), (1, 2)])
        far = R.choice([4, 8, 12])
        d = [[R.choice([0, far, far, far, R.randint(1, 12)]) for _ in range(w)] for _ in range(h)]
        rot = ROTS[0] if R.random() < 0.7 else R.choice(ROTS)
        t = [R.randint(-3, 3), R.randint(-2, 2), R.randint(-1, 2)]
        if k and R.random() < 0.5:
            # a camera that looks back or sideways at the same place
            rot, t = R.choice(ROTS), [R.randint(-4, 4), R.randint(-4, 4), R.randint(0, 14)]
        views.append(dict(fx=fx, fy=fy, cx=R.randint(0, w - 1), cy=R.randint(0, h - 1), r=rot, t=t, d=d))
    S = 1
    for v in views:
        S = max(S, v["fx"], v["fy"])
    return views, S


def run_clean(views, p, qq, mn):
    c = pydense.DepthmapCleaner()
    c.set_same_depth_threshold(p / qq)
    c.set_min_consistent_views(mn)
    for v in views:
        c.add_view(kmat(v), np.array(v["r"], float), np.array(v["t"], float), np.array(v["d"], np.float32))
    return np.array(c.clean())


def clean_case(views, S, p, qq, mn):
    h, w = len(views[0]["d"]), len(views[0]["d"][0])

    def f(e):
        e["got"] = [[int(round(float(x))) if abs(float(x) - round(float(x))) < 1e-6 else -1 for x in row] for row in run_clean(views, p, qq, mn)]
    case("clean", f, w=w, h=h, S=S, p=p, q=qq, min=mn, views=views)


def row_case(b):
    """A behaviour of the row model: two equal rows, cameras side by side."""
    w = len(b["d"][0])
    get = lambda d, x: d[str(x)] if isinstance(d, dict) else d[x]
    views = []
    for d, base in zip(b["d"], b["b"]):
        row = [get(d, x) for x in range(w)]
        views.append(dict(fx=b["f"], fy=b["f"], cx=R.randint(0, 2), cy=0, r=ROTS[0] if False else np.eye(3, dtype=int).tolist(), t=[-base, 0, 0], d=[row, row, row]))
    cx = views[0]["cx"]
    for v in views:
        v["cx"], v["cy"] = cx, 1
        v["t"][1] = 0
    clean_case(views, b["f"], 1, 10, R.randint(1, 3))


def prune_case(w, h):
    views, S = rand_views(w, h, R.randint(1, 3))
    p, qq = R.choice([(1, 100), (1, 10), (1, 4)])
    for v in views:
        v["n"] = [[list(R.choice(NORMALS)) for _ in range(w)] for _ in range(h)]
        v["lab"] = [[R.randint(0, 255) for _ in range(w)] for _ in range(h)]

    def f(e):
        d = pydense.DepthmapPruner()
        d.set_same_depth_threshold(p / qq)
        for k, v in enumerate(views):
            col = np.array([[[y, x, 7 + k] for x in range(w)] for y in range(h)], np.uint8)
            mul = R.choice([1, 1, 0.25, 3])
            d.add_view(kmat(v), np.array(v["r"], float), np.array(v["t"], float), np.array(v["d"], np.float32),
                       (np.array(v["n"], float)[:, :, :3] * mul).astype(np.float32), col, np.array(v["lab"], np.uint8))
        P, N, C, L = d.prune()
        e["got"] = [[q(x, 1000) for x in p_] + [q(x, 1000) for x in n_] + [int(x) for x in c_] + [int(l_)] for p_, n_, c_, l_ in zip(P, N, C, L)]
    case("prune", f, w=w, h=h, S=S, p=p, q=qq, views=views)


def texture(h, w, seed):
    g = np.random.default_rng(seed)
    return g.integers(20, 236, (h, w)).astype(np.uint8)


def estim_case(method):
    exact = int(method == "compute_brute_force")
    h, w = (R.randint(9, 13), R.randint(22, 28)) if exact else (R.randint(22, 28), R.randint(34, 44))
    patch = R.choice([3, 5, 7] if exact else [5, 7])
    nn = R.randint(1, 3)
    lo_s, hi_s = 2, 10
    bases = [R.choice([1, -1])]
    for _ in range(nn - 1):
        bases.append(R.choice([1, -1, 2, -2]))
    fb = 40.0
    layers = [R.randint(lo_s, hi_s // 2)] * 2
    if R.random() < 0.6:
        layers[1] = R.randint(lo_s, hi_s // 2)
    if exact:
        layers = [R.randint(lo_s, hi_s) for _ in layers]
    cut = R.randint(3, h - 4) if R.random() < 0.7 else h
    layer = [1 if y < cut else 2 for y in range(h)]
    pad = 50
    T = texture(h, w + 2 * pad, R.randrange(10 ** 6))
    flat, masked = [], []
    mask0 = np.full((h, w), 255, np.uint8)
    if not exact:
        # low contrast rectangle in the first picture and in the others, a masked one
        x0 = R.randint(2, w - 14)
        T = T.copy()
        if R.random() < 0.6:
            T[:, pad + x0:pad + x0 + 12] = 100 + (np.arange(12) % 2)
        mx = R.randint(0, w - 8)
        if R.random() < 0.6:
            mask0[4:12, mx:mx + 8] = 0
    f = fb
    K = np.array([[f, 0, R.randint(0, w)], [0, f, R.randint(0, h)], [0, 0, 1]], float)
    g = np.random.default_rng(R.randrange(10 ** 6))
    # a common motion of the world changes nothing
    A = rand_pose(R) if R.random() < 0.7 else pygeometry.Pose()
    RA, tA = A.get_rotation_matrix(), np.array(A.translation)
    inv = lambda s: s / fb
    hp = (patch - 1) // 2
    sd = 3.0
    I0 = T[:, pad:pad + w]
    if not exact:
        for y in range(hp, h - hp):
            for x in range(hp, w - hp):
                pv = I0[y - hp:y + hp + 1, x - hp:x + hp + 1].astype(float).var()
                if pv < sd * sd * 0.98:
                    flat.append([y, x])
                elif pv < sd * sd * 1.02:
                    return
        masked = [[int(y), int(x)] for y, x in zip(*np.where(mask0 == 0))]

    def run(e):
        de = pydense.DepthmapEstimator()
        zmin, zmax = fb / hi_s, fb / lo_s
        de.set_depth_range(zmin, zmax, hi_s - lo_s + 1)
        de.set_patch_size(patch)
        de.set_min_patch_sd(sd)
        de.set_patchmatch_iterations(4)
        imgs, Rs, ts, masks = [I0], [np.eye(3)], [np.zeros(3)], [mask0]
        shift = []
        for b in bases:
            s = [layers[0] * b, layers[1] * b]
            im = np.zeros((h, w), np.uint8)
            for y in range(h):
                o = pad + s[layer[y] - 1]
                im[y] = T[y, o:o + w]
            imgs.append(im); Rs.append(np.eye(3)); ts.append(np.array([-float(b), 0, 0])); masks.append(np.full((h, w), 255, np.uint8))
            shift.append(s)
        for im, r, t, m in zip(imgs, Rs, ts, masks):
            de.add_view(K, r @ RA, r @ tA + t, im, m)
        depth, plane, score, nghbr = getattr(de, method)()
        e["shift"] = shift
        e["truth"] = [q(fb / s, 1e4) for s in layers]
        e["lo"], e["hi"] = q(zmin, 1e4), q(zmax, 1e4)
        e["depth"] = [[q(float(x), 1e4) for x in row] for row in depth]
        e["score"] = [[q(float(x), 1e3) for x in row] for row in score]
        e["nghbr"] = [[int(x) for x in row] for row in nghbr]
    case("estim", run, method=method, exact=exact, w=w, h=h, patch=patch, layer=layer, flat=flat, masked=masked, tol=2 if exact else 40, share=60)


def cam(w, h, f=1.0):
    c = pygeometry.Camera.create_perspective(f, 0.0, 0.0)
    c.id, c.width, c.height = "cam", w, h
    return c


def neigh_case():
    n = R.randint(2, 6)
    rec = types.Reconstruction()
    rec.add_camera(cam(64, 48))
    A = rand_pose(R)
    names = ["im%d.jpg" % k for k in range(n)]
    x = 0.0
    for nm in names:
        rec.create_shot(nm, "cam", pygeometry.Pose(np.zeros(3), np.array([-x, R.uniform(-.3, .3), 0])))
        x += R.uniform(0.5, 2)
    absent = names.pop(R.randrange(1, n)) if n > 3 and R.random() < 0.3 else None
    tm = pymap.TracksManager()
    tid = 0
    obs = []
    own = names[0]
    truth = {}
    for o in [k for k in rec.shots if k != own]:
        c1, c2 = rec.shots[own].pose.get_origin(), rec.shots[o].pose.get_origin()
        b = np.linalg.norm(c1 - c2)
        tot, ngood = R.choice([0, 5, 49, 50, 51, 60, 75]), R.choice([15, 20, 21, 22, 26, 40, 48])
        for j in range(tot):
            good = j < ngood
            th = math.radians(R.uniform(3.3, 29) if good else R.choice([R.uniform(.3, 2.8), R.uniform(31, 80)]))
            z = b / 2 / math.tan(th / 2)
            mid = (c1 + c2) / 2
            u = np.cross(c2 - c1, [R.uniform(-.1, .1), 1, 0])
            p = mid + u / np.linalg.norm(u) * z
            t = str(tid); tid += 1
            inrec = R.random() < 0.97
            if inrec:
                rec.create_point(t, p)
            for s in (own, o):
                tm.add_observation(s, t, pymap.Observation(0., 0., .001, 1, 1, 1, tid))
            a, bb = c1 - p, c2 - p
            truth[t] = (o, int(inrec), q(math.acos(np.dot(a, bb) / np.linalg.norm(a) / np.linalg.norm(bb))))
    if own not in tm.get_shot_ids():
        return
    if absent:
        rec.remove_shot(absent)
    num = R.randint(1, n)

    def f(e):
        e["obs"] = [[o, i, th] for o, i, th in truth.values() if o in rec.shots]
        common = dense.common_tracks_double_dict(tm)
        e["got"] = [s.id for s in dense.find_neighboring_images(rec.shots[own], common, rec, num)]
    case("neigh", f, own=own, n=num, others=[k for k in names if k != own])


def range_case():
    rec = types.Reconstruction()
    rec.add_camera(cam(64, 48))
    pose = rand_pose(R)
    rec.create_shot("a.jpg", "cam", pose)
    rec.create_shot("b.jpg", "cam", rand_pose(R))
    tm = pymap.TracksManager()
    d = []
    for t in range(R.randint(1, 40)):
        z = R.uniform(1, 50)
        p = np.array([R.uniform(-1, 1) * z, R.uniform(-1, 1) * z, z])
        who = R.choice(["a.jpg", "a.jpg", "b.jpg"])
        known = R.random() < 0.85 or not d
        if not d:
            who = "a.jpg"
        if known:
            rec.create_point(str(t), pose.transform_inverse(p))
        tm.add_observation(who, str(t), pymap.Observation(0., 0., .001, 1, 1, 1, t))
        if known and who == "a.jpg":
            d.append(q(z, 1000))
    cfg = [R.choice([0, 0, 1.5]), R.choice([0, 0, 60.0])]

    def f(e):
        lo, hi = dense.compute_depth_range(tm, rec, rec.shots["a.jpg"], dict(depthmap_min_depth=cfg[0], depthmap_max_depth=cfg[1]))
        e["got"] = [q(float(lo), 1000), q(float(hi), 1000)]
    case("range", f, d=d, cfg=[q(c, 1000) for c in cfg])


class Faulty(UndistortedDataSet):
    fail = ()
    stop = None
    saved = None

    def load_undistorted_image(self, image):
        if image in self.fail:
            raise IOError("unreadable picture")
        return super().load_undistorted_image(image)

    def note(self, ph, image):
        if self.stop == (ph, image):
            raise KeyboardInterrupt()
        self.saved.append((ph, image))

    def save_raw_depthmap(self, image, *a, **k):
        self.note(1, image)
        return super().save_raw_depthmap(image, *a, **k)

    def save_clean_depthmap(self, image, *a, **k):
        self.note(2, image)
        return super().save_clean_depthmap(image, *a, **k)

    def save_pruned_depthmap(self, image, *a, **k):
        self.note(3, image)
        return super().save_pruned_depthmap(image, *a, **k)


def run_case(idx, b):
    """A behaviour of the run model, on pictures of a textured wall."""
    R = rng("denserun%d" % idx)
    path = os.path.join(SCRATCH, "dense%d" % idx)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path + "/images")
    w, h, f, Z = 32, 22, 1.0, 12.0
    n = len(b["g"])
    # the shots of the model are numbered as the reconstruction lists them
    first = ["s%d.png" % (k + 1) for k in range(n)]
    tmp = types.Reconstruction()
    tmp.add_camera(cam(w, h, f))
    for nm in first:
        tmp.create_shot(nm, "cam", pygeometry.Pose())
    names = list(tmp.shots.keys())
    for nm in names:
        io.imwrite(os.path.join(path, "images", nm), np.zeros((h, w, 3), np.uint8))
    data = DataSet(path)
    method = R.choice(["BRUTE_FORCE", "BRUTE_FORCE", "PATCH_MATCH", "PATCH_MATCH_SAMPLE"])
    data.config.update(depthmap_method=method, depthmap_patch_size=5, depthmap_min_depth=8.0, depthmap_max_depth=20.0, depthmap_num_neighbors=max(1, max(len(x) for x in b["g"])),
                       depthmap_num_matching_views=1, depthmap_min_consistent_views=R.choice([1, 2, 2]), processes=R.choice([1, 1, 3]) if all(r["stop"] == [0, 0] for r in b["runs"]) else 1,
                       depthmap_min_correlation_score=0.3, depthmap_same_depth_threshold=R.choice([0.01, 0.05]), interactive=False)
    ud = Faulty(data, os.path.join(path, "undistorted"))
    # disparities are whole pixels: f * W * base / Z
    unit = Z / (f * w)
    off = [2 * k for k in range(n)]
    seed = R.randrange(10 ** 6)
    T = cv2.GaussianBlur(texture(h, w + 2 * n + 20, seed), (3, 3), 0.7)
    color = np.dstack([T, T, T])
    rec = types.Reconstruction()
    rec.add_camera(cam(w, h, f))
    A = rand_pose(R)
    back = lambda p: A.transform_inverse(p)
    rig = {}
    for nm in first:
        k = names.index(nm)
        local = pygeometry.Pose(np.zeros(3), np.array([-off[k] * unit, 0, 0]))
        rec.create_shot(nm, "cam", local.compose(A))
        ud.save_undistorted_image(nm, color[:, 10 + off[k]:10 + off[k] + w].copy())
    # common points: the wanted neighbours, in the wanted order
    tm = pymap.TracksManager()
    tid = 0
    want = {}
    for i in range(n):
        for j in range(i + 1, n):
            a, c = [x in b["g"][y] for x, y in ((j + 1, i), (i + 1, j))]
            m = 0
            if a or c:
                m = 80 - 9 * (b["g"][i].index(j + 1) if a else 0)
            elif R.random() < .5:
                m = 15
            base = (off[j] - off[i]) * unit
            for _ in range(m):
                th = math.radians(R.uniform(5, 25))
                z = abs(base) / 2 / math.tan(th / 2)
                p = np.array([(off[i] + off[j]) / 2 * unit, 0, z])
                t = str(tid); tid += 1
                rec.create_point(t, back(p))
                for s in (i, j):
                    tm.add_observation(names[s], t, pymap.Observation(0., 0., .001, 1, 1, 1, tid))
    events = []
    for r in b["runs"]:
        e = dict(op="run", exc="", method=method)
        fail = [names[s - 1] for s in r["fail"]]
        Faulty.fail = fail
        ud.fail = fail
        ph, s = r["stop"]
        ud.stop = (ph, names[s - 1]) if ph else None
        ud.saved = []
        before = {}
        dp = os.path.join(path, "undistorted", "depthmaps")
        if os.path.isdir(dp):
            for fn in os.listdir(dp):
                before[fn] = open(os.path.join(dp, fn), "rb").read()
        stopped = 0
        e["wantnb"] = b["g"]
        try:
            common = dense.common_tracks_double_dict(tm)
            e["nb"] = [[names.index(o.id) + 1 for o in dense.find_neighboring_images(rec.shots[nm], common, rec, data.config["depthmap_num_neighbors"])[1:]] for nm in names]
            try:
                dense.compute_depthmaps(ud, tm, rec)
            except KeyboardInterrupt:
                stopped = 1
            ud.fail, ud.stop = (), None
            e["stopped"], e["wantstop"] = stopped, int(ph != 0)
            e["raw"] = [k + 1 for k, nm in enumerate(names) if ud.raw_depthmap_exists(nm)]
            e["clean"] = [k + 1 for k, nm in enumerate(names) if ud.clean_depthmap_exists(nm)]
            e["pru"] = [k + 1 for k, nm in enumerate(names) if ud.pruned_depthmap_exists(nm)]
            seq = lambda v: [sorted(x) if isinstance(x, list) else x for x in v]
            e["want"] = dict(raw=sorted(r["raw"]), clean=seq(r["clean"]), pru=seq(r["pru"]))
            e["kept"] = [int(open(os.path.join(dp, fn), "rb").read() == v) for fn, v in before.items() if not fn.endswith(".ply")]
            K = lambda: rec.shots[names[0]].camera.get_K_in_pixel_coordinates(w, h)
            views = lambda s, st: [names[s - 1]] + [names[x - 1] for x in b["g"][s - 1] if x in st]
            e["sameclean"], e["samepru"], e["truth"], e["plane"] = [], [], [], []
            for s in e["raw"]:
                depth = ud.load_raw_depthmap(names[s - 1])[0]
                hits = tot = 0
                other = off[b["g"][s - 1][0] - 1] - off[s - 1] if b["g"][s - 1] else 0
                for y in range(2, h - 3):
                    for x in range(2, w - 2):
                        u = x - other
                        if 2 <= u < w - 3:
                            tot += 1
                            # one step of the sweep
                            hits += abs(1 / depth[y, x] - 1 / Z) < 0.0012 if depth[y, x] > 0 else 0
                if tot and method == "BRUTE_FORCE":
                    e["truth"].append(int(1000 * hits / tot))
            for s in e["clean"]:
                st = e["want"]["clean"][s - 1]
                if not st:
                    continue
                c = pydense.DepthmapCleaner()
                c.set_same_depth_threshold(data.config["depthmap_same_depth_threshold"])
                c.set_min_consistent_views(data.config["depthmap_min_consistent_views"])
                for nm in views(s, st):
                    sh = rec.shots[nm]
                    c.add_view(K(), sh.pose.get_rotation_matrix(), sh.pose.translation, ud.load_raw_depthmap(nm)[0])
                got, pl, sc = ud.load_clean_depthmap(names[s - 1])
                _, rpl, rsc, _, _ = ud.load_raw_depthmap(names[s - 1])
                e["sameclean"].append(int(np.array_equal(c.clean(), got) and np.array_equal(pl, rpl) and np.array_equal(sc, rsc)))
            allp = []
            for s in e["pru"]:
                st = e["want"]["pru"][s - 1]
                got = ud.load_pruned_depthmap(names[s - 1])
                allp.append((s, got))
                if not st:
                    continue
                d = pydense.DepthmapPruner()
                d.set_same_depth_threshold(data.config["depthmap_same_depth_threshold"])
                for nm in views(s, st):
                    sh = rec.shots[nm]
                    dd, pl, _ = ud.load_clean_depthmap(nm)
                    d.add_view(K(), sh.pose.get_rotation_matrix(), sh.pose.translation, dd, pl, ud.load_undistorted_image(nm), np.zeros((h, w), np.uint8))
                e["samepru"].append(int(all(np.array_equal(x, y) for x, y in zip(d.prune(), got))))
            e["merged"] = 0
            if not stopped:
                mp = ud.load_point_cloud()
                order = {k: i for i, k in enumerate(rec.shots)}
                allp.sort(key=lambda x: order[names[x[0] - 1]])
                cat = [np.concatenate([g[k] for _, g in allp]) if allp else np.zeros((0, 3)) for k in range(4)]
                e["merged"] = int(len(mp[0]) == len(cat[0]) and (not len(cat[0]) or (np.abs(np.array(mp[0]) - cat[0]).max() < 2e-4 and np.abs(np.array(mp[1]) - cat[1]).max() < 2e-3 and np.array_equal(np.array(mp[2]).astype(int), cat[2].astype(int)) and np.array_equal(np.array(mp[3]).astype(int).ravel(), cat[3].astype(int).ravel()))))
                if len(cat[0]) > 50 and method == "BRUTE_FORCE" and data.config["depthmap_min_consistent_views"] == 2:
                    good = 0
                    for p, c in zip(cat[0], cat[2]):
                        l = A.transform(np.array(p, float))
                        x = l[0] / l[2] * f * w + (w - 1) / 2.0
                        y = l[1] / l[2] * f * w + (h - 1) / 2.0
                        gx = l[0] / unit + (w - 1) / 2.0 + 10
                        gy = l[1] / unit + (h - 1) / 2.0
                        ok = abs(1 / l[2] - 1 / Z) < 0.0025
                        good += ok
                    e["plane"] = [int(1000 * good / len(cat[0]))]
        except Exception as x:
            e["exc"] = exc_name(x) + ": " + str(x)[:200]
        events.append(e)
        if e["exc"]:
            break
    shutil.rmtree(path, ignore_errors=True)
    return dict(kind="run", events=events)


def mesh_case():
    kind = R.choice(["perspective", "brown", "radial", "simple_radial", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "spherical", "equirectangular", "dual"][:9])
    rec = types.Reconstruction()
    c = make_camera(R, "cam", kind)
    rec.add_camera(c)
    A = rand_pose(R)
    rec.create_shot("a.jpg", "cam", A)
    rec.create_shot("b.jpg", "cam", rand_pose(R))
    tm = pymap.TracksManager()
    base = 4 if kind in ("perspective", "brown", "radial", "simple_radial") else 8 if kind == "spherical" else 21
    pts = []
    cam_ = rec.cameras["cam"]
    W, H = cam_.width, cam_.height
    dx, dy = W / 2 / max(W, H), H / 2 / max(W, H)
    for t in range(R.randint(0, 25)):
        z = R.uniform(2, 20)
        if base == 8:
            v = np.array([R.gauss(0, 1) for _ in range(3)])
            p = v / np.linalg.norm(v) * z
        elif base == 21:
            p = np.array([R.uniform(-.9, .9) * z, R.uniform(-.9, .9) * z, z])
        else:
            p = np.array(cam_.pixel_bearing(np.array([R.uniform(-1.25, 1.25) * dx, R.uniform(-1.25, 1.25) * dy])))
            p = p * (z / p[2])
        known = R.random() < 0.9
        mine = R.random() < 0.9
        if known:
            rec.create_point(str(t), A.transform_inverse(p))
        tm.add_observation("a.jpg" if mine else "b.jpg", str(t), pymap.Observation(R.uniform(-.4, .4), R.uniform(-.3, .3), .001, 1, 1, 1, t))
        if known and mine:
            wp = rec.points[str(t)].coordinates
            st = 1
            if base == 4:
                px = cam_.project(p)
                m = max(abs(px[0]) - dx, abs(px[1]) - dy)
                st = 1 if m < -1e-4 else 0 if m > 1e-4 else 2
            pts.append([q(x, 1000) for x in wp] + [st])
    which = R.choice(["a.jpg"] * 9 + ["zz.jpg"])
    none = int(which == "zz.jpg" or "a.jpg" not in tm.get_shot_ids())

    def f(e):
        e["v"], e["faces"], e["z"], e["px"] = [], [], [], []
        e["corner"] = e["frame"] = e["closed"] = 0
        V, F = mesh.triangle_mesh(which, rec, tm)
        e["v"] = [[q(float(x), 1000) for x in v] for v in V]
        e["faces"] = [[int(x) for x in fc] for fc in F]
        if none:
            return
        loc = [A.transform(np.array(v, float)) for v in V]
        e["z"] = [q(l[2], 1000) for l in loc]
        if base == 4:
            e["area"] = int(round(4 * dx * dy * 1e8))
            K = cam_.get_K()
            und = [(K @ l)[:2] / l[2] for l in loc[:4]]
            e["corner"] = int(all(min(math.hypot(x - a, y - b) for x, y in und) < 1e-6 for a in (-dx, dx) for b in (-dy, dy)))
            e["px"] = [[q(x[0], 10000), q(x[1], 10000)] for x in und] + [[q(x, 10000) for x in cam_.project(l)] for l in loc[4:]]
        elif base == 8:
            e["frame"] = int(sorted(tuple(round(float(x), 3) for x in l) for l in loc[:8]) == sorted(tuple(round(.3 * s / math.sqrt(3), 3) for s in p) for p in itertools.product([-1, 1], repeat=3)))
            edges = {}
            for fc in e["faces"]:
                for a, b in ((0, 1), (1, 2), (2, 0)):
                    k = tuple(sorted((fc[a], fc[b])))
                    edges[k] = edges.get(k, 0) + 1
            e["closed"] = int(all(v == 2 for v in edges.values()) and bool(edges))
        else:
            ring = [30 * np.array([math.cos(2 * math.pi * i / 20), math.sin(2 * math.pi * i / 20), 0]) for i in range(20)] + [np.array([0, 0, 30.])]
            e["frame"] = int(max(np.abs(a - b).max() for a, b in zip(ring, loc)) < 1e-6)
    case("mesh", f, shape="flat" if base == 4 else "round" if base == 8 else "fish", base=base, pts=pts, none=none, area=0, ptype=kind)


for b in inp["rows"]:
    row_case(b)
for _ in range(inp["clean"]):
    w, h = R.randint(3, 5), R.randint(2, 4)
    views, S = rand_views(w, h, R.randint(1, 4))
    p, qq = R.choice([(1, 100), (1, 20), (1, 4), (1, 2)])
    clean_case(views, S, p, qq, R.randint(1, 4))
for _ in range(inp["prune"]):
    prune_case(R.randint(2, 5), R.randint(2, 4))
for _ in range(inp["estim"]):
    estim_case(R.choice(["compute_brute_force"] * 2 + ["compute_patch_match", "compute_patch_match_sample"]))
for _ in range(inp["neigh"]):
    neigh_case()
for _ in range(inp["range"]):
    range_case()
for _ in range(inp["mesh"]):
    mesh_case()
cases += fork_map(run_case, inp["runs"])
save_output(dict(cases=cases))
