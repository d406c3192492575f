"""Undistortion: reconstruction, tracks and pictures."""
import math
import os
import shutil
import cv2
import numpy as np
from vcommon import *
from recval import make_camera, rand_pose
from opensfm import config as cfgm, dataset, features, geo, pygeometry, pymap, types, undistort
from opensfm.dataset import DataSet
from opensfm.actions import undistort as act

inp = load_input()
R = rng("undist")
cases = []
SUP = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62"]


def case(kind, fn, **k):
    e = dict(op=kind, exc="")
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind=kind, events=[e]))


def vec(v):
    return [q(x) for x in v]


def mat(A):
    return [vec(r) for r in np.asarray(A)]


def meta(m):
    return [tok(m.gps_position.value[0]) if m.gps_position.has_value else "", tok(m.capture_time.value) if m.capture_time.has_value else "", str(m.orientation.value) if m.orientation.has_value else ""]


def points(r):
    return sorted([k] + [tok(x) for x in p.coordinates] + [str(list(p.color))] for k, p in r.points.items())


def obsrest(o):
    return [q(o.scale, 1e6), [int(c) for c in o.color], int(o.id), int(o.segmentation), int(o.instance)]


def look(e, what, shot, ushot, got, src):
    """Sample pixels of a written picture: its value, and what the original
    shows around that direction (a range for pictures, a set of labels else)."""
    cam, uc = shot.camera, ushot.camera
    h, w = src.shape[:2]
    gh, gw = got.shape[:2]
    pano = cam.projection_type == "spherical"
    fw, fh = (uc.width, uc.height) if pano else (w, h)
    S, G = max(w, h), max(fw, fh)
    for _ in range(12):
        u, t = R.randrange(gw), R.randrange(gh)
        fu, fv = math.floor(u * fw / gw), math.floor(t * fh / gh)

        def srcpix(x, y):
            b = uc.pixel_bearing(features.normalized_image_coordinates(np.array([[x, y]], dtype=float), fw, fh)[0])
            if pano:
                b = shot.pose.get_rotation_matrix() @ ushot.pose.get_rotation_matrix().T @ b
            return features.denormalized_image_coordinates(np.array([cam.project(b)]), w, h)[0]
        c = srcpix(fu, fv)
        if not (np.isfinite(c).all() and 2 < c[0] < w - 3 and 2 < c[1] < h - 3):
            continue
        d = max(np.linalg.norm(srcpix(fu + i, fv + j) - c) for i, j in ((1, 0), (0, 1), (-1, 0), (0, -1)))
        if d > (12 if pano else 3):
            continue
        r = 1.6 + d + (w / (4 * fw) if pano else 0)
        x0, x1 = max(0, math.floor(c[0] - r)), min(w, math.ceil(c[0] + r) + 1)
        y0, y1 = max(0, math.floor(c[1] - r)), min(h, math.ceil(c[1] + r) + 1)
        if c[0] - r < 0 or c[0] + r > w - 1 or c[1] - r < 0 or c[1] + r > h - 1:
            continue
        win = src[y0:y1, x0:x1]
        if what == "i":
            for k in (0, 1):
                v = got[t, u]
                e["look"].append([what, int(v[2 - k]), [int(win[:, :, 2 - k].min()) - 12, int(win[:, :, 2 - k].max()) + 12]])
        else:
            e["look"].append([what, int(got[t, u]), sorted({int(x) for x in win.ravel()})])


for n in range(inp["rec"]):
    path = os.path.join(SCRATCH, "und%d" % n)
    os.makedirs(path + "/images")
    fmt = R.choice(["jpg", "png", "tif"])
    withimg = n < inp["full"]
    rec = types.Reconstruction()
    rec.reference = geo.TopocentricConverter(R.uniform(-80, 80), R.uniform(-180, 180), 3.)
    ncam = R.randrange(1, 4)
    sizes = {}
    for c in range(ncam):
        pt = R.choice(SUP + ["spherical", "spherical", "perspective"] + ([] if withimg else ["fisheye624", "radial", "simple_radial", "dual"]))
        cam = make_camera(R, "c%d" % c, pt)
        sizes["c%d" % c] = (cam.width, cam.height) = R.choice([(64, 48), (48, 64), (40, 40)]) if pt != "spherical" else (64, 32)
        rec.add_camera(cam)
    shots, tm, have_tm = [], pymap.TracksManager(), R.random() < .8
    listed = []
    rig = R.random() < .3
    if rig:
        rec.add_rig_camera(pymap.RigCamera(rand_pose(R, 1), "ra"))
        rec.add_rig_camera(pymap.RigCamera(rand_pose(R, 1), "rb"))
    count = R.randrange(1, 5)
    for k in range(count):
        cid = "c%d" % R.randrange(ncam)
        cam = rec.cameras[cid]
        sid = "im%d%s" % (k, R.choice([".jpg", ".png", ".tif", ".JPG", ".x.jpg"]))
        if rig:
            if k % 2 == 0:
                rec.add_rig_instance(pymap.RigInstance("ri%d" % k))
                inst = "ri%d" % k
            s = rec.create_shot(sid, cid, rand_pose(R), "ra" if k % 2 == 0 else "rb", inst)
        else:
            s = rec.create_shot(sid, cid, rand_pose(R))
        if R.random() < .6:
            s.metadata.gps_position.value = np.array([R.random(), 2, 3])
        if R.random() < .6:
            s.metadata.capture_time.value = R.random()
        if R.random() < .6:
            s.metadata.orientation.value = R.randrange(1, 9)
        inl = withimg or R.random() < .85
        if inl:
            listed.append(sid)
        row = dict(full=sid, fits=int(sid.endswith("." + fmt)), type=cam.projection_type, listed=int(inl), meta=meta(s.metadata), cam=[q(cam.focal) if cam.projection_type != "spherical" else 0, 1000000, cam.width, cam.height], obs=[], has=[0, 0], pic=[cam.width, cam.height])
        if cam.projection_type in ("brown", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial"):
            row["cam"][1] = q(cam.aspect_ratio)
        if have_tm and R.random() < .85:
            for t in R.sample(range(9), R.randrange(0, 7)):
                lim = .35 if cam.projection_type != "spherical" else .499
                p = [R.uniform(-lim, lim), R.uniform(-lim, lim) * (.5 if cam.projection_type == "spherical" else 1)]
                b = cam.pixel_bearing(np.array(p))
                near = cam.pixel_bearing(np.array(p) + 1e-6)
                if np.linalg.norm(cam.project(b) - p) > 1e-7 or np.linalg.norm(near - b) > 2e-5:
                    continue  # the inversion of a strong distortion did not settle
                o = pymap.Observation(p[0], p[1], R.choice([.004, .001]), R.randrange(256), 2, R.randrange(256), R.randrange(1000), R.choice([-1, 3]), R.choice([-1, 5]))
                tm.add_observation(sid, "t%d" % t, o)
                row["obs"].append(dict(t="t%d" % t, p=vec(p), b=vec(cam.pixel_bearing(np.array(p))), rest=obsrest(o)))
        shots.append((row, s))
    for k in range(R.randrange(0, 5)):
        p = rec.create_point("t%d" % k, [R.uniform(-9, 9) for _ in range(3)])
        p.color = [R.randrange(256), 1, 2]
    if R.random() < .3:
        listed.append("other.jpg")
    cfgd = dict(undistorted_image_format=fmt, depthmap_resolution=R.choice([16, 24]), processes=1, undistorted_image_max_size=R.choice([100000, 20, 50]))
    with open(path + "/config.yaml", "w") as f:
        for k, v in cfgd.items():
            f.write("%s: %s\n" % (k, v))
    for row, s in shots:
        row["o"] = vec(s.pose.get_origin())
        row["R"] = mat(s.pose.get_rotation_matrix())
    for sid in listed or ["none.jpg"]:
        open(path + "/images/" + sid, "wb").close()
    if not listed:
        listed = ["none.jpg"]
    with open(path + "/image_list.txt", "w") as f:
        f.write("\n".join("images/" + i for i in listed))
    orig = {}
    if withimg:
        for row, s in shots:
            w, h = row["pic"]
            if R.random() < .3:
                w, h = 2 * w, 2 * h
            row["pic"] = [w, h]
            yy, xx = np.indices((h, w))
            cell = max(4, w // 8)
            img = np.dstack([xx * 200 // w, yy * 200 // h, 0 * xx + 90]).astype(np.uint8)
            msk = (((xx // cell) + (yy // cell)) % 2 * 255).astype(np.uint8)
            seg = (1 + 3 * ((xx // cell) % 4) + 40 * ((yy // cell) % 3)).astype(np.uint8)
            orig[row["full"]] = (img[:, :, ::-1], msk, seg)
            ext = row["full"].rsplit(".", 1)[1].lower()
            with open(path + "/images/" + row["full"], "wb") as f:
                f.write(cv2.imencode("." + ext, img)[1].tobytes())
            if R.random() < .5:
                os.makedirs(path + "/masks", exist_ok=True)
                cv2.imwrite(path + "/masks/" + row["full"] + ".png", msk)
                row["has"][0] = 1
            if R.random() < .5:
                os.makedirs(path + "/segmentations", exist_ok=True)
                cv2.imwrite(path + "/segmentations/" + row["full"] + ".png", seg)
                row["has"][1] = 1

    def run(e):
        data = DataSet(path)
        data.save_reconstruction([rec])
        data.save_camera_models(rec.cameras)
        if have_tm:
            data.save_tracks_manager(tm)
        if withimg:
            act.run_dataset(data, output="und")
        else:
            act.run_dataset(data, output="und", skip_images=True)
        ud = dataset.UndistortedDataSet(DataSet(path), path + "/und", data.io_handler)
        ids = ud.load_undistorted_shot_ids()
        e["map"] = [[k, list(v)] for k, v in sorted(ids.items())]
        u = ud.load_undistorted_reconstruction()[0]
        utm = ud.load_undistorted_tracks_manager() if have_tm else None
        for s in u.shots.values():
            c = s.camera
            ob = []
            if utm and s.id in utm.get_shot_ids():
                ob = [dict(t=t, p=vec(o.point), rest=obsrest(o)) for t, o in sorted(utm.get_shot_observations(s.id).items())]
            e["ushots"].append(dict(id=s.id, o=vec(s.pose.get_origin()), R=mat(s.pose.get_rotation_matrix()), cam=[c.projection_type, q(c.focal), q(c.k1), q(c.k2), c.width, c.height], meta=meta(s.metadata), obs=ob))
        e["pts"] = [points(rec), points(u)]
        e["ref"] = [[tok(rec.reference.lat), tok(rec.reference.lon), tok(rec.reference.alt)], [tok(u.reference.lat), tok(u.reference.lon), tok(u.reference.alt)]]
        if withimg:
            for full, v in ids.items():
                for i in v:
                    im = ud.load_undistorted_image(i)
                    m = ud.load_undistorted_mask(i) if ud.undistorted_mask_exists(i) else None
                    g = ud.load_undistorted_segmentation(i) if ud.undistorted_segmentation_exists(i) else None
                    for what, a, b in zip("ims", (im, m, g), orig[full]):
                        if a is not None:
                            look(e, what, rec.shots[full], u.shots[i], a, b)
                    e["files"].append([i, [int(m is not None), int(g is not None)], [[a.shape[1], a.shape[0]] for a in (im, m, g) if a is not None]])
    case("rec", run, fmt=fmt, res=cfgd["depthmap_resolution"], maxsize=cfgd["undistorted_image_max_size"], shots=[r for r, _ in shots], tracks=[1] if have_tm else [], map=[], ushots=[], pts=[[], []], ref=[[], []], files=[], look=[], nofile=0, slack=1)
    shutil.rmtree(path)

# ------------------------------------------------------------------ pictures
for n in range(inp["image"]):
    pt = R.choice(SUP)
    cam = make_camera(R, "c", pt)
    big = R.choice([(80, 60), (60, 80), (64, 64), (90, 40)])
    cam.width, cam.height = R.choice([big, (4 * big[0], 4 * big[1])])
    rec, urec = types.Reconstruction(), types.Reconstruction()
    rec.add_camera(cam)
    shot = rec.create_shot("s", "c", rand_pose(R))
    w, h = big
    S = max(w, h)
    maxs = R.choice([1000, 1000, S, S // 2])

    def pic(e):
        uc = getattr(undistort, "perspective_camera_from_" + pt)(cam)
        urec.add_camera(uc)
        us = undistort.get_shot_with_different_camera(urec, shot, "jpg")
        yy, xx = np.indices((h, w)).astype(np.float32)
        img = np.dstack([xx, yy, 0 * xx + 1]).astype(np.float32)
        out = undistort.undistort_image(shot, [us], img, cv2.INTER_AREA, maxs)
        [(k, v)] = out.items()
        assert k == us.id
        e["got"] = [v.shape[1], v.shape[0]]
        lab = (xx // 8 + 5 * (yy // 8)).astype(np.uint8) + 1
        [lv] = undistort.undistort_image(shot, [us], lab, cv2.INTER_NEAREST, maxs).values()
        sx, sy = w / v.shape[1], h / v.shape[0]
        for _ in range(40):
            u, t = R.randrange(v.shape[1]), R.randrange(v.shape[0])
            # centre of the pixel in the full undistorted picture
            fu, fv = (u, t) if sx == 1 else (math.floor(u * sx), math.floor(t * sy))
            a = features.normalized_image_coordinates(np.array([[fu, fv]], dtype=float), w, h)[0]
            b = uc.pixel_bearing(a)
            x = features.denormalized_image_coordinates(np.array([cam.project(b)]), w, h)[0]
            if not (2 < x[0] < w - 3 and 2 < x[1] < h - 3):
                continue
            # the picture is resampled by at most a pixel, stretched by the distortion
            d = max(np.linalg.norm(cam.project(uc.pixel_bearing(a + np.array(dd) / S)) - cam.project(b)) * S for dd in ([1, 0], [0, 1]))
            if d > 3:
                continue
            skew = sum(np.linalg.norm((cam.project(uc.pixel_bearing(a + np.array(dd) / S)) - cam.project(b)) * S - dd) for dd in ([1, 0], [0, 1]))
            tol = .25 + .6 * skew + .5 * (d if sx != 1 else 0)
            e["px"].append([q(v[t, u, 0]), q(v[t, u, 1]), q(x[0]), q(x[1]), q(tol)])
            r = 1.6 + d
            near = {int(lab[int(np.clip(j, 0, h - 1)), int(np.clip(i, 0, w - 1))]) for i in np.arange(x[0] - r, x[0] + r + 1) for j in np.arange(x[1] - r, x[1] + r + 1)}
            e["labels"].append([int(lv[t, u]), sorted(near)])
    f = min(1, maxs / S)
    case("image", pic, type=pt, size=[int(round(w * f)), int(round(h * f))], got=[], px=[], labels=[])

for n in range(inp["pano"]):
    w = R.choice([16, 32, 40])
    rec, urec = types.Reconstruction(), types.Reconstruction()
    cam = make_camera(R, "c", "spherical")
    cam.width, cam.height = 8 * w, 4 * w
    rec.add_camera(cam)
    shot = rec.create_shot("s", "c", rand_pose(R))

    def pan(e):
        import itertools
        us = undistort.perspective_views_of_a_panorama(shot, w, urec, "jpg", itertools.count())
        W, H = 8 * w, 4 * w
        yy, xx = np.indices((H, W)).astype(np.float32)
        img = np.dstack([(xx + .5 - W / 2) / W, (yy + .5 - H / 2) / W, 0 * xx]).astype(np.float32)
        out = undistort.undistort_image(shot, us, img, cv2.INTER_AREA, 1000)
        for s in us:
            v = out[s.id]
            assert v.shape[:2] == (w, w)
            for _ in range(12):
                u, t = R.randrange(w), R.randrange(w)
                # sampling mixes the ends of the longitude range
                e["px"].append(dict(face=s.rig_camera_id, w=w, u=u, v=t, got=[q(v[t, u, 0]), q(v[t, u, 1])], tol=int(1e6 * .6 / (4 * w))))
    case("pano", pan, px=[])
save_output(dict(cases=cases))
