"""Feature masks: orientation, resolution, combination, baked labels, the feature loader."""
import json
import os
import shutil
from unittest import mock
import cv2
import numpy as np
from PIL import Image
from vcommon import *
from opensfm import feature_loading, features, features_processing, masking, pygeometry
from opensfm.dataset import DataSet

inp = load_input()
R = rng("mask")
cases = []
LABELS = [0, 1, 2, 3, 7, 128, 254, 255]


def grid(w, h, vals, blocky):
    if blocky:
        a = [[R.choice(vals) for _ in range(2)] for _ in range(2)]
        return [[a[2 * r // h][2 * c // w] for c in range(w)] for r in range(h)]
    return [[R.choice(vals) for _ in range(w)] for _ in range(h)]


def norm(pts, w, h):
    s = max(w, h)
    return np.array([[(x + .5 - w / 2.) / s, (y + .5 - h / 2.) / s, 1.0, 0.0] for x, y in pts]).reshape(-1, 4)


def save_png(path, rows):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    Image.fromarray(np.array(rows, dtype=np.uint8)).save(path)


def feats(pts, w, h, seg=None, inst=None, labels=()):
    n = len(pts)
    ids = np.arange(1, n + 1)
    sem = None
    if seg is not None:
        sem = features.SemanticData(np.array(seg), np.array(inst) if inst is not None else None, list(labels))
    desc = np.stack([ids % 250, ids // 250] + [ids * 0] * 6, axis=1)
    col = np.stack([ids % 250, ids // 250, ids * 0], axis=1)
    return features.FeaturesData(norm(pts, w, h), desc, col, sem)


def unid(a):
    return [int(x[0]) + 250 * int(x[1]) for x in np.asarray(a)]


for n in range(inp["random"]):
    progress(dict(case=n))
    path = os.path.join(SCRATCH, "mask%d" % n)
    os.makedirs(path + "/images")
    cfg = dict(feature_type="HAHOG", hahog_normalize_to_uchar=True)
    baked = R.random() < .35
    ign = R.choice([[], [], R.sample(LABELS, 1), R.sample(LABELS, 3)])
    cfg["segmentation_ignore_values"] = ign
    cfg["features_bake_segmentation"] = baked
    with open(path + "/config.yaml", "w") as f:
        f.write(json.dumps(cfg))
    imgs, info, exifs = ["a.jpg", "b.png", "c.JPG"][:R.randrange(1, 4)], {}, {}
    for im in imgs:
        open(path + "/images/" + im, "wb").close()
        w, h = R.choice([(4, 3), (3, 4), (8, 6), (5, 5), (7, 2), (12, 9), (1, 6), (9, 6), (10, 15)])
        o = R.choice([1, 1, 3, 6, 8])
        uw, uh = (w, h) if o < 6 else (h, w)
        k = R.choice([1, 1, 1, 2, 3])
        sz = R.choice([(uw, uh), (uw, uh), (uw * k, uh * k), (max(1, uw // 2), max(1, uh // 2)), (max(1, uw // 3), max(1, uh // 3))])
        for f in (3, 5):   # much coarser labels, or mask, than the image
            if uw % f == 0 and uh % f == 0 and R.random() < .6:
                sz = (uw // f, uh // f)
        mask = grid(*sz, R.choice([[0, 255], [0, 1], [0, 254], [0, 1, 2, 128, 254]]), R.random() < .4) if R.random() < .7 else []
        k2 = f if (sz[0] * f, sz[1] * f) == (uw, uh) and R.random() < .7 else R.choice([1, 1, 2, 3, 5]) if sz[0] * sz[1] < 60 else R.choice([1, 1, 2])
        sz2 = (sz[0] * k2, sz[1] * k2) if R.random() < .8 or not mask else sz
        if mask and sz2 != sz and R.random() < .5:  # the mask is the finer one
            mask = grid(*sz2, R.choice([[0, 255], [0, 1], [0, 254], [0, 1, 2, 128, 254]]), R.random() < .4)
            sz2 = sz
        seg = grid(*sz2, R.choice([LABELS, [0, 1], [2, 3, 255]]), R.random() < .4) if R.random() < .7 else []
        inst = grid(*sz2, list(range(6)), False) if R.random() < .5 and seg else []
        if mask:
            save_png(path + "/masks/" + im + ".png", mask)
        if seg:
            if R.random() < .3:   # labels are in the first channel
                a = np.array(seg, dtype=np.uint8)
                seg4 = np.stack([a, a // 2 + 1, 255 - a, a * 0 + 9], axis=2)
                save_png(path + "/segmentations/" + im + ".png", seg4)
            else:
                save_png(path + "/segmentations/" + im + ".png", seg)
        if inst:
            save_png(path + "/instances/" + im + ".png", inst)
        pts = [[R.randrange(w), R.randrange(h)] for _ in range(R.choice([0, 1, 5, 9]))] if R.random() < .6 else [[x, y] for x in range(w) for y in range(h)]
        info[im] = dict(pts=pts, w=w, h=h, o=o, mask=mask, seg=seg, inst=inst)
        exifs[im] = dict(width=w, height=h, orientation=o, camera="c")
    data = DataSet(path)
    cam0 = pygeometry.Camera.create_perspective(.8, 0, 0)
    cam0.id, cam0.width, cam0.height = "c", 8, 6
    data.save_camera_models({"c": cam0})
    for im in imgs:
        data.save_exif(im, exifs[im])
    fl = feature_loading.FeatureLoader()
    for im in imgs:
        v = info[im]
        pts, w, h, o = v["pts"], v["w"], v["h"], v["o"]
        base = dict(exc="", pts=pts, w=w, h=h, o=o, mask=v["mask"], seg=v["seg"], ign=ign, keep=[0] * len(pts))
        evs = []

        def ev(op, fn, **k):
            e = dict(base, op=op)
            e.update(k)
            try:
                fn(e)
            except Exception as x:
                e["exc"] = exc_name(x) + ": " + str(x)[:200]
            evs.append(e)
            return e

        def plain(e):
            e["keep"] = [int(b) for b in masking.load_features_mask(data, im, norm(pts, w, h))]
        ev("mask", plain)
        if v["mask"]:
            mk = np.array(v["mask"], dtype=np.uint8)

            def given(e):
                e["keep"] = [int(b) for b in masking.load_features_mask(data, im, norm(pts, w, h), mk)]
            ev("mask", given, seg=[])
        # labels baked at extraction
        sl = il = None
        if pts:
            def bake(e):
                img = np.zeros((h, w, 3), dtype=np.uint8)
                a, b = features_processing.bake_segmentation(img, norm(pts, w, h), np.array(v["seg"], dtype=np.uint8) if v["seg"] else None,
                                                             np.array(v["inst"], dtype=np.uint8) if v["inst"] else None, exifs[im])
                e["gotseg"] = [int(x) for x in a] if a is not None else []
                e["gotinst"] = [int(x) for x in b] if b is not None else []
            e = ev("bake", bake, inst=v["inst"], gotseg=[], gotinst=[])
            if not e["exc"]:
                sl, il = e["gotseg"] or None, e["gotinst"] or None
        # through the extraction, which sorts the features by size
        if pts:
            def extract(e, bake):
                P = norm(pts, w, h)
                P[:, 2] = [R.uniform(1, 9) for _ in pts]
                fd = feats(pts, w, h)
                seg_, ins_ = [data.load_segmentation(im), data.load_instances(im)] if bake else [None, None]
                with mock.patch.object(features, "extract_features", return_value=(P, fd.descriptors, fd.colors)):
                    features_processing.detect(im, np.zeros((h, w, 3), np.uint8), seg_, ins_, data, True)
                got = data.load_features(im)
                ids = unid(got.descriptors)
                if not bake:
                    e["keep"] = [int(i in ids) for i in range(1, len(pts) + 1)]
                    if len(set(ids)) != len(ids):
                        e["keep"] = []
                    return
                for key, a in (("gotseg", got.semantic and got.semantic.segmentation), ("gotinst", got.semantic and got.semantic.has_instances() and got.semantic.instances)):
                    by = {i: int(x) for i, x in zip(ids, a)} if a is not None and a is not False else {}
                    e[key] = [by[i] for i in sorted(by)]
            if baked:
                ev("bake", lambda e: extract(e, True), inst=v["inst"], gotseg=[], gotinst=[])
            else:
                ev("mask", lambda e: extract(e, False))
        # through the feature loader
        use_baked = baked and sl is not None
        data.save_features(im, feats(pts, w, h, sl if use_baked else None, il if use_baked else None))

        def lmask(e):
            m = fl.load_mask(data, im)
            e["keep"] = [int(b) for b in m]
        if pts:
            keep = ev("mask", lmask, seg=v["seg"] if use_baked or not baked else v["seg"])
            if not keep["exc"]:
                def ld(e):
                    fd = fl.load_all_data(data, im, True, False)
                    ix = dict((tuple(np.round(p[:2], 5)), None) for p in norm(pts, w, h))
                    back = []
                    arr = [unid(fd.descriptors), unid(fd.colors)]
                    ids = arr[0]
                    P = norm(pts, w, h)
                    arr.append([i for i, p in zip(ids, fd.points) if np.abs(P[i - 1, :2] - p[:2]).max() < 1e-5])
                    cam = pygeometry.Camera.create_perspective(.8, 0, 0)
                    be = fl.load_bearings(data, im, True, cam)
                    arr.append([i for i, b in zip(ids, be) if np.abs(cam.project(b) - P[i - 1, :2]).max() < 1e-5] if len(be) == len(ids) else [0])
                    if fd.semantic is not None:
                        arr.append([i for i, s in zip(ids, fd.semantic.segmentation) if int(s) == sl[i - 1]])
                        if il is not None:
                            arr.append([i for i, s in zip(ids, fd.semantic.instances) if int(s) == il[i - 1]])
                    wd = np.arange(1, len(pts) + 1).reshape(-1, 1)
                    data.save_words(im, wd)
                    arr.append([int(x[0]) for x in fl.load_words(data, im, True)])
                    e["arrays"] = arr
                ev("load", ld, keep=keep["keep"], arrays=[])

                def lda(e):
                    fd = fl.load_all_data(data, im, False, False)
                    full = fl.load_points_colors_segmentations_instances(data, im)
                    e["arrays"] = [unid(fd.descriptors), unid(fd.colors), unid(full.colors), [int(x[0]) for x in fl.load_words(data, im, False)]]
                ev("load", lda, keep=[1] * len(pts), arrays=[])
        cases.append(dict(kind="mask", events=evs))
    shutil.rmtree(path)
save_output(dict(cases=cases))
