"""Rigs: grouping by patterns, calibration, subsets, assignments."""
import json
import math
import os
import shutil
import cv2
import numpy as np
from vcommon import *
from recval import make_camera, rand_pose
from opensfm import geo, pygeometry, pymap, rig, types
from opensfm.dataset import DataSet

inp = load_input()
R = rng("rig")
cases = []
TOK = {"a": "1", "b": "_2", "l": "L", "r": "R", "t": "top"}


def case(kind, fn, **k):
    e = dict(op=kind, exc="")
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind=kind, events=[e]))


def decode(s):
    out, i = [], 0
    while i < len(s):
        for t, v in TOK.items():
            if s.startswith(v, i):
                out.append(t)
                i += len(v)
                break
        else:
            return ["?"]
    return out


def vec(v):
    return [q(float(x)) for x in np.ravel(v)]


def group(imgs, pats):
    names = ["".join(TOK[t] for t in im) for im in imgs]
    style = R.choice(["(%s)", "%s"])

    def fn(e):
        inst, single = rig.create_instances_with_patterns(names, {"cam-" + p: style % TOK[p] for p in pats})
        e["inst"] = [[decode(k), [[names.index(im) + 1, pats.index(c[4:]) + 1] for im, c in v]] for k, v in inst.items()]
        e["single"] = [names.index(im) + 1 for im in single]
        e["find"] = []
        for im in names:
            c, m = rig.find_image_rig(im, {"cam-" + p: style % TOK[p] for p in pats})
            e["find"].append([0 if c is None else pats.index(c[4:]) + 1, [] if m is None else decode(m)])
    case("group", fn, imgs=imgs, pats=pats)


for b in inp["group"]:
    group(b["imgs"], b["pats"])
for _ in range(inp["randgroup"]):
    pats = R.sample(sorted(TOK), R.randrange(1, 5))
    imgs = []
    for _ in range(R.randrange(1, 10)):
        im = [R.choice(sorted(TOK)) for _ in range(R.randrange(1, 5))]
        if im not in imgs:
            imgs.append(im)
    group(imgs, pats)


def close(a, b, n=3):
    return vec(a), vec(b)


def rotvec(s):
    v = np.array([R.gauss(0, 1) for _ in range(3)])
    return v / np.linalg.norm(v) * s


for n in range(inp["calib"]):
    # rigs: groups of rig cameras with true poses, instances anywhere
    heading = R.choice(["same", "any", "any", "turn"])
    noise = R.choice([0., 0., .002, .03])
    rec = types.Reconstruction()
    for c in ("c0", "c1"):
        rec.add_camera(make_camera(R, c))
    ngroups = R.choice([1, 1, 2])
    names = ["left", "right", "back", "top"]
    R.shuffle(names)
    groups, truth = [], {}
    cut = R.randrange(1, 4) if ngroups == 2 else R.randrange(1, 5)
    groups = [names[:cut]] + ([names[cut:]] if ngroups == 2 else [])
    if ngroups == 2 and R.random() < .3:
        groups[1] = groups[1] + groups[0][:1]  # a camera in two groups
    back = R.random() < .4
    for g in groups:
        for c in g:
            truth.setdefault(c, pygeometry.Pose(rotvec(R.choice([.1, 1., math.pi - .2])) if back else rotvec(R.uniform(0, .8)), np.array([R.uniform(-1, 1) for _ in range(3)])))
    inst, full = {}, []
    base = rotvec(R.uniform(0, 3.))
    for gi, g in enumerate(groups):
        count = R.choice([3, 4, 6]) if noise > .01 else R.choice([1, 2, 3, 6])
        odd = R.randrange(count)  # a noise that is not small is that of one instance
        for j in range(count):
            if heading == "same":
                r = base
            elif heading == "turn":
                r = cv2.Rodrigues(cv2.Rodrigues(base)[0] @ cv2.Rodrigues(np.array([0, 0, R.uniform(-3, 3)]))[0])[0].ravel()
            else:
                r = rotvec(R.uniform(0, math.pi))
            pose = pygeometry.Pose(r, np.array([R.uniform(-20, 20) for _ in range(3)]))
            iid = "i%d_%d" % (gi, j)
            order = list(g)
            R.shuffle(order)
            inst[iid] = []
            ok = 1
            for c in order:
                sid = "%s_%s" % (iid, c)
                inst[iid].append((sid, c))
                if R.random() < .08:
                    ok = 0
                    continue
                p = truth[c].compose(pose)
                if noise and (noise < .01 or j == odd):
                    o = p.get_origin() + rotvec(noise)
                    p = pygeometry.Pose(cv2.Rodrigues(cv2.Rodrigues(rotvec(noise))[0] @ p.get_rotation_matrix())[0].ravel(), np.zeros(3))
                    p.set_origin(o)
                rec.create_shot(sid, R.choice(["c0", "c1"]), p)
            full.append([iid, gi, ok])
    items = list(inst.items())
    R.shuffle(items)
    inst = dict(items)

    def calib(e):
        got = rig.create_rig_cameras_from_reconstruction(rec, inst)
        e["groups"] = [sorted(g) for g in groups]
        e["full"] = full
        e["cams"] = sorted(got)
        e["ids"] = sorted(c.id for c in got.values())
        e["rel"] = []
        for gi, g in enumerate(groups):
            for a in g:
                for b in g:
                    if a < b and a in got and b in got:
                        x = got[a].pose.compose(got[b].pose.inverse())
                        y = truth[a].compose(truth[b].inverse())
                        rels = [rec.shots["%s_%s" % (i, a)].pose.relative_to(rec.shots["%s_%s" % (i, b)].pose) for i, x_, ok_ in full if x_ == gi and ok_]
                        if noise > .01 and rels:  # the mean, whose dependence on the reference is of second order
                            u, _, vt = np.linalg.svd(sum(p.get_rotation_matrix() for p in rels))
                            y = pygeometry.Pose(cv2.Rodrigues(u @ vt)[0].ravel())
                            y.set_origin(np.mean([p.get_origin() for p in rels], axis=0))
                        e["rel"].append([gi, a, b, vec(x.get_rotation_matrix()), vec(y.get_rotation_matrix()), vec(x.translation), vec(y.translation)])
        e["center"] = [[gi, vec(np.mean([got[c].pose.get_origin() for c in g], axis=0))] for gi, g in enumerate(groups) if all(c in got for c in g)]
        sub = R.sample(sorted(inst), R.randrange(1, len(inst) + 1))
        keep = {s for i in sub for s, _ in inst[i]}
        r2 = types.Reconstruction()
        r2.add_camera(pygeometry.Camera.create_spherical())
        cid = next(iter(r2.cameras.keys()))
        for s in rec.shots.keys():
            if s in keep:
                r2.create_shot(s, cid)
        e["count"] = rig.count_reconstructed_instances([inst[i] for i in sub], r2)
        e["fullcount"] = len([f for f in full if f[0] in sub and f[2]])
        gr = rig.group_instances(inst)
        e["grouping"] = sorted([sorted({c for _, c in v[0]}), sorted(x[0][0].rsplit("_", 1)[0] for x in v), [k, ", ".join(sorted({c for _, c in v[0]}))]] for k, v in gr.items())
        e["want_grouping"] = sorted([sorted(g), sorted(i for i, x, _ in full if x == gi)] for gi, g in enumerate(groups))
        per = rig.rig_assignments_per_image(inst)
        e["per"] = sorted([im, v[0], v[1], v[2]] for im, v in per.items())
        e["want_per"] = sorted([im, i, c, [s for s, _ in l]] for i, l in inst.items() for im, c in l)
    case("calib", calib, noise=q(noise), rot=heading)

REF = geo.TopocentricConverter(40., 3., 0.)
for n in range(inp["subset"]):
    path = os.path.join(SCRATCH, "rig%d" % n)
    os.makedirs(path + "/images")
    ncl = R.choice([1, 1, 2])
    inst, when, cl = {}, {}, {}
    allims = []
    k = 0
    sizes = [R.choice([1, 2, 3, 5, 9]), 7][:ncl]  # fewer than seven are joined to the others by the six neighbors
    if ncl == 2:
        sizes[0] = R.choice([8, 9])
    exif = {}
    for c in range(ncl):
        split = ncl == 2 and c == 0 and R.random() < .5  # the images of an instance are far apart, their means are not
        for j in range(sizes[c]):
            iid = "inst%02d" % k
            inst[iid] = []
            when[iid] = R.randrange(10000)
            cl[iid] = c
            flip = R.choice([-1, 1])
            x0, y0 = R.uniform(-100, 100), R.uniform(-100, 100)
            for rc in R.sample(["L", "R"], 2):
                im = "%s_%s.jpg" % (rc, iid)
                la, lo, _ = REF.to_lla(5000. * c + x0 + (4000. * flip * (1 if rc == "L" else -1) if split else 0), y0, 0)
                exif[im] = {"camera": "c", "width": 10, "height": 10, "make": "a", "model": "b", "projection_type": "perspective", "orientation": 1, "capture_time": float(when[iid]), "gps": {"latitude": la, "longitude": lo, "altitude": 1., "dop": 5.}}
                inst[iid].append((im, rc))
                open(path + "/images/" + im, "w").write(im)
                allims.append(im)
            k += 1
    extra = R.choice([0, 0, 3])  # instances of another group of cameras, here or elsewhere
    for j in range(extra):
        iid = "inst%02d" % k
        im = "T_%s.jpg" % iid
        when[iid], cl[iid] = R.randrange(10000), 2
        la, lo, _ = REF.to_lla(R.uniform(-100, 100), 20000., 0)
        exif[im] = {"camera": "c", "width": 10, "height": 10, "make": "a", "model": "b", "projection_type": "perspective", "orientation": 1, "capture_time": float(when[iid]), "gps": {"latitude": la, "longitude": lo, "altitude": 1., "dop": 5.}}
        inst[iid] = [(im, "T")]
        open(path + "/images/" + im, "w").write(im)
        allims.append(im)
        k += 1
    data = DataSet(path)
    size = data.config["rig_calibration_subset_size"] = R.choice([2, 4, 15])
    for im, x in exif.items():
        data.save_exif(im, x)
    cam = make_camera(R, "Cam", "perspective")
    data.save_camera_models({"Cam": cam})

    def subset(e):
        e["order"] = [i for i in sorted(inst, key=lambda i: when[i])]
        e["ties"] = int(len(set(when.values())) < len(when))
        e["cluster"] = [[i, cl[i]] for i in sorted(inst)]
        e["sizes"] = sizes
        e["size"] = size
        e["extra"] = extra
        e["got"] = []
        gen = rig.propose_subset_dataset_from_instances(data, inst, "sub")
        for _ in range(40):
            d, picked = next(gen)
            names = sorted(x[0][0][2:-4] for x in picked)
            e["got"].append([[x[0][0][2:-4] for x in picked], sorted(d.images()), sorted(im for x in picked for im, _ in x), sorted(im for i in names for im, _ in inst[i])])
            if any(open(os.path.join(d.data_path, "images", im)).read() != im for im in d.images()):
                e["got"][-1][1] = ["another picture"]
    if sizes[0] > 1:
        case("subset", subset)

    def whole(e):
        from opensfm import actions
        for f in ("rig_cameras.json", "rig_assignments.json"):
            if os.path.exists(path + "/" + f):
                os.remove(path + "/" + f)
        data.config["rig_calibration_subset_size"] = 4
        rounds = data.config["rig_calibration_max_rounds"] = R.randrange(1, 4)
        full = data.config["rig_calibration_completeness"] = R.choice([.5, .85])
        plan = [R.choice(["none", "few", "missing", "good"]) for _ in range(rounds)]
        if R.random() < .3:
            plan = [R.choice(["none", "few", "missing"]) for _ in range(rounds)]
        true = {c: pygeometry.Pose(rotvec(R.uniform(0, 1.)), np.array([R.uniform(-1, 1) for _ in range(3)])) for c in ("L", "R", "T")}
        done, seen = [], []
        want = []

        def fake(sub, *a, **k_):
            what = plan[len(done)] if len(done) < len(plan) else plan[-1] if plan[-1] != "good" else "none"
            done.append(what)
            ims = sub.images()
            ids = sorted({im[2:] for im in ims})
            pairs = [i for i in ids if any("L_" + i == im for im in ims)]
            if what == "none":
                return sub.save_reconstruction([])
            rec_ = types.Reconstruction()
            rec_.add_camera(make_camera(R, "Cam", "perspective"))
            drop = set()
            if what == "few":  # one more than may be lost, but one of each kind stays
                lose = int(math.floor(len(ids) * (1 - full) + 1e-9)) + 1
                drop = set(pairs[:min(lose, len(pairs) - 1)])
                if len(drop) < lose:
                    drop |= set([i for i in ids if i not in pairs][:-1][:lose - len(drop)])
                if len(ids) - len(drop) >= full * len(ids):
                    done[-1] = "none"
                    return sub.save_reconstruction([])
            want.clear()
            for i in ids:
                pose = pygeometry.Pose(rotvec(R.uniform(0, 3)), np.array([R.uniform(-9, 9) for _ in range(3)]))
                for im in [im for im in ims if im[2:] == i]:
                    if (i in drop or what == "missing") and im[0] == "R":
                        continue
                    if i in drop and im[0] == "T":
                        continue
                    rec_.create_shot(im, "Cam", true[im[0]].compose(pose))
            x, y = true["L"].compose(true["R"].inverse()), 0
            want.append([vec(x.get_rotation_matrix()), vec(x.translation)])
            sub.save_reconstruction([rec_])
        mods = ["extract_metadata", "detect_features", "match_features", "create_tracks", "reconstruct"]
        import importlib
        mods = [importlib.import_module("opensfm.actions." + m) for m in mods]
        old = [m.run_dataset for m in mods]
        try:
            for m in mods:
                m.run_dataset = (lambda *a, **k_: None)
            mods[-1].run_dataset = fake
            rig.create_rigs_with_pattern(data, {"L": "^L_", "R": "^R_", **({"T": "^T_"} if extra else {})})
        finally:
            for m, f in zip(mods, old):
                m.run_dataset = f
        e["good"] = [int(x == "good") for x in done]
        e["planned"] = [int(x == "good") for x in plan]
        e["saved"] = [int(os.path.exists(path + "/rig_cameras.json")), int(os.path.exists(path + "/rig_assignments.json"))]
        d2 = DataSet(path)
        e["got"], e["want"] = [], []
        if e["saved"] == [1, 1]:
            cams = d2.load_rig_cameras()
            e["cams"] = sorted(c for c in cams if c != "Cam")
            x = cams["L"].pose.compose(cams["R"].pose.inverse())
            e["got"] = [vec(x.get_rotation_matrix()), vec(x.translation)]
            e["want"] = want[0]
        e["wantcams"] = ["L", "R"] + (["T"] if extra else [])
        e["assign"] = sorted([i, sorted([im, c] for im, c in l)] for i, l in d2.load_rig_assignments().items())
        e["want_assign"] = sorted([i + ".jpg", sorted([im, c] for im, c in l)] for i, l in inst.items())
    if sizes[0] > 1 and min(sizes) > 1:
        case("whole", whole)
    for f in ("rig_cameras.json", "rig_assignments.json"):
        if os.path.exists(path + "/" + f):
            os.remove(path + "/" + f)

    def store(e):
        cams = {c: pymap.RigCamera(rand_pose(R, 2), c) for c in R.sample(["L", "R", "Cam"], R.randrange(1, 4))}
        first = sorted(data.load_rig_cameras())
        e["none"] = [first, sorted(data.load_rig_assignments())]
        data.save_rig_cameras(cams)
        data.save_rig_assignments(inst)
        d2 = DataSet(path)
        got = d2.load_rig_cameras()
        ident = pygeometry.Pose()
        e["cams"] = [[c, vec(got[c].pose.rotation) + vec(got[c].pose.translation) + [got[c].id]] for c in sorted(got)]
        e["want"] = [[c, vec((cams[c].pose if c in cams else ident).rotation) + vec((cams[c].pose if c in cams else ident).translation) + [c]] for c in sorted(set(cams) | {"Cam"})]
        e["assign"] = [[i, [list(x) for x in l]] for i, l in d2.load_rig_assignments().items()]
        e["want_assign"] = [[i, [list(x) for x in l]] for i, l in inst.items()]
        with open(path + "/rig_assignments.json", "w") as f:
            json.dump(list(inst.values()), f)
        e["old"] = [[i, [list(x) for x in l]] for i, l in d2.load_rig_assignments().items()]
        e["want_old"] = [[str(k_), [list(x) for x in l]] for k_, l in enumerate(inst.values())]
    case("store", store)
    shutil.rmtree(path, ignore_errors=True)
save_output(dict(cases=cases))
