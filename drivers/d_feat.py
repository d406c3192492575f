"""Features extraction: the producer/consumer run under perturbed schedules, and whole runs on real images."""
import json
import os
import shutil
import sys
import threading
import time
import cv2
import numpy as np
from vcommon import *
from opensfm import config as oconfig, context, features, features_processing as fp, io, pygeometry
from opensfm.dataset import DataSet

inp = load_input()
R = rng("feat")
cases = []
FILE = fp.__file__
sys.setswitchinterval(1e-5)


# ---------------------------------------------------------------- the queue
class Fake:
    """A dataset whose methods record the order of things and may fail or wait for a schedule."""

    def __init__(s, cfg, cams, gray, have, fail, order):
        s.config = cfg
        s.cams = cams
        s.gray = gray
        s.have = have
        s.fail = fail
        s.order = list(order)
        s.events = []
        s.lock = threading.Lock()
        s.last = time.time()

    def rec(s, *e):
        with s.lock:
            s.events.append(list(e))
            s.last = time.time()

    def turn(s, what):
        """Wait (a little) for the turn of this step in the schedule of the model."""
        if what not in s.order:
            return
        t = time.time()
        while s.order and s.order[0] != what and time.time() - t < .03:
            time.sleep(.0003)

    def passed(s, what):
        with s.lock:
            if what in s.order:
                s.order.remove(what)

    def load_camera_models(s):
        return s.cams

    def load_image(s, i):
        s.turn(["read", i])
        s.rec("load", i)
        s.passed(["read", i])
        if "load" in s.fail.get(i, ""):
            raise IOError("load " + i)
        return s.gray

    def load_segmentation(s, i):
        return None

    load_instances = load_segmentation

    def load_exif(s, i):
        return {} if not s.cams else dict(camera="c", width=s.gray.shape[1], height=s.gray.shape[0], orientation=1)

    def features_exist(s, i):
        return "f" in s.have.get(i, "")

    def words_exist(s, i):
        return "w" in s.have.get(i, "")

    def feature_type(s):
        return "orb"

    def load_mask(s, i):
        return None

    def segmentation_ignore_values(s, i):
        return []

    def save_features(s, i, f):
        s.turn(["save", i])
        if "save" in s.fail.get(i, ""):
            s.rec("nosave", i)
            raise IOError("save " + i)
        s.rec("save", i)
        s.passed(["save", i])

    def save_words(s, i, w):
        s.rec("words", i)

    def save_report(s, *a):
        pass


cam = pygeometry.Camera.create_perspective(1, 0, 0)
cam.width = cam.height = 512
GRAY = np.random.RandomState(3).randint(0, 255, (40, 48, 3)).astype(np.uint8)
VOC = os.path.join(SCRATCH, "voc.npz")
np.savez(VOC, words=np.random.RandomState(5).randint(0, 200, (60, 128)).astype(np.float32), frequencies=np.arange(1, 61))


SEEN = []


def tracer(seed, p, at=None):
    """Delay threads at random lines, or all threads at one line, so that they pile up there."""
    import random
    loc = threading.local()
    stall = {at} if at else set(R.sample(SEEN, R.choice([1, 1, 2]))) if SEEN and R.random() < .7 else ()
    left = [40]

    def local(frame, event, arg):
        if event == "line":
            r = getattr(loc, "r", None)
            if r is None:
                r = loc.r = random.Random("%s-%s" % (seed, threading.get_ident()))
            if frame.f_lineno not in SEEN and frame.f_code.co_name not in ("detect", "average_image_size", "average_processing_size"):
                SEEN.append(frame.f_lineno)
            if stall:
                if frame.f_lineno in stall and left[0] > 0:
                    left[0] -= 1
                    time.sleep(.012)
            elif r.random() < p:
                time.sleep(r.choice([0, .0003, .002, .006]))
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename == FILE else None
    return glob


def queue_case(n, procs, readers, mem, have, fail, force, order, words, seed, ncam=1, mpp=1, at=None):
    cfg = dict(oconfig.default_config(), processes=procs, read_processes=readers, feature_type="ORB", mem_ceiling=mem, mem_ratio=1.0,
               feature_process_size=64 if not mpp else 1024, feature_min_frames=20)
    if words:
        cfg["matching_bow_neighbors"] = 4
    d = Fake(cfg, {"c%d" % k: cam for k in range(ncam)} | ({"c": cam} if ncam else {}), GRAY, have, fail, order)
    imgs = ["im%d" % k for k in range(1, n + 1)]
    res = {}

    def go():
        try:
            fp.run_features_processing(d, imgs, force)
            res["end"] = ""
        except Exception as e:
            res["end"] = exc_name(e) + " " + str(e)
    threading.settrace(tracer(seed, R.choice([.05, .2, .5]), at))
    t = threading.Thread(target=go, daemon=True)
    d.last = time.time()
    t.start()
    while t.is_alive() and time.time() - d.last < 40:
        t.join(.5 if time.time() - d.last > 2 else .02)
    threading.settrace(None)
    hang = t.is_alive()
    with d.lock:
        evs = list(d.events)
    need = [i for i in imgs if force or not ("f" in have.get(i, "") and (not words or "w" in have.get(i, "")))]
    cases.append(dict(kind="queue", images=imgs, need=need, fail=sorted(fail), failname=["%s %s" % (v, k) for k, v in sorted(fail.items())],
                      procs=procs, readers=readers, cap=min(200, int(mem // 2)) if ncam else 200, skips=int(len(need) < n), words=int(words),
                      events=[dict(op=e[0], i=e[1]) for e in evs] + [dict(op="hang" if hang else "end", i=res.get("end", "hang"))]))
    return hang


def no_words(monkey):
    return None


# words in queue cases: the vocabulary is not the matter, only that they are saved
class Bow:
    def map_to_words(self, d, n, t):
        return np.zeros((len(d), n), dtype=np.int32)


hung = False
real_load_bows = fp.bow.load_bows
fp.bow.load_bows = lambda config: Bow()
todo = []
for k, s in enumerate(inp["schedules"]):
    todo.append(dict(n=s["n"], procs=s["procs"], readers=s["readers"], mem=s["mem"], have={}, fail={}, force=False,
                     order=[["read" if e[0] == "read" else "save", "im%d" % e[1]] for e in s["log"]], words=False, seed="m%d" % k))
for k in range(inp["queue"]):
    n = R.choice([0, 1, 2, 3, 3, 4, 4, 5, 8])
    procs, readers = R.choice([1, 2, 3, 4, 4, 6, 8, 8]), R.choice([1, 2, 2, 3, 4])
    imgs = ["im%d" % j for j in range(1, n + 1)]
    have = {i: R.choice(["f", "fw", "w", ""]) for i in imgs} if R.random() < .3 else {}
    fail = {R.choice(imgs): R.choice(["load", "save"])} if n and R.random() < .2 else {}
    todo.append(dict(n=n, procs=procs, readers=readers, mem=R.choice([1, 2, 3, 3, 4, 5, 8, 400]), have=have, fail=fail, force=R.random() < .3, order=[],
                     words=R.random() < .25, seed="r%d" % k, ncam=R.choice([0, 1, 1, 1]), mpp=0))
for q_ in todo:
    progress(q_)
    if queue_case(**q_):
        hung = True
        break
for at in sorted(SEEN):
    for n, procs, readers, mem in [(4, 8, 4, 2), (3, 6, 3, 4), (2, 4, 2, 2), (6, 8, 3, 5)]:
        q_ = dict(n=n, procs=procs, readers=readers, mem=mem, have={}, fail={}, force=False, order=[], words=False, seed="at%d" % at, mpp=0, at=at)
        progress(q_)
        if hung or queue_case(**q_):
            hung = True
            break
fp.bow.load_bows = real_load_bows

# ------------------------------------------------------------- whole runs


def texture(w, h, rs, color=True):
    a = np.zeros((h, w, 3), np.uint8) + rs.randint(40, 200, 3).astype(np.uint8)
    for _ in range(30):
        x, y, s = rs.randint(0, w), rs.randint(0, h), rs.randint(3, max(4, min(w, h) // 4))
        c = [int(v) for v in rs.randint(0, 255, 3)]
        if rs.rand() < .5:
            cv2.rectangle(a, (x, y), (x + s, y + s), c, -1)
        else:
            cv2.circle(a, (x, y), s // 2, c, -1)
    return a if color else np.repeat(a[:, :, :1], 3, axis=2)


def digest(p, d, c):
    return hash((tuple(np.round(np.asarray(p, dtype=float)[:4], 6)), tuple(np.round(np.asarray(d, dtype=float), 4)), tuple(int(v) for v in c))) % 1000000007


def rows(p, d, c):
    return [digest(p[k].astype(np.float32), d[k], c[k]) for k in range(len(p))]


def run_case(n):
    rs = np.random.RandomState(R.randrange(10 ** 6))
    path = os.path.join(SCRATCH, "run%d" % n)
    os.makedirs(path + "/images")
    ft = R.choice(["ORB", "HAHOG", "SIFT", "AKAZE", "HAHOG"])
    words = ft == "HAHOG" and R.random() < .6
    cfg = dict(feature_type=ft, processes=R.choice([1, 3]), feature_process_size=R.choice([2048, 96, 100]), feature_process_size_panorama=R.choice([2048, 64]),
               feature_min_frames=R.choice([60, 150]), feature_min_frames_panorama=R.choice([40, 200]), hahog_normalize_to_uchar=True,
               matching_bow_neighbors=0, feature_root=R.choice([True, False]) or ft == "HAHOG", mem_ceiling=4000, read_processes=R.choice([1, 2]))
    if words:
        cfg["matching_bow_neighbors" if R.random() < .5 else "matcher_type"] = 3 if "matching_bow_neighbors" not in cfg else 3
        cfg["matching_bow_neighbors"] = 3
        cfg.pop("matcher_type", None)
        if R.random() < .4:
            cfg["matching_bow_neighbors"] = 0
            cfg["matcher_type"] = "WORDS"
        cfg["bow_file"] = VOC
        cfg["bow_words_to_match"] = R.choice([1, 3, 5])
        cfg["bow_matcher_type"] = R.choice(["FLANN", "BruteForce"])
    with open(path + "/config.yaml", "w") as f:
        f.write(json.dumps(cfg))
    names = ["a.png", "b.png", "c.png"][:R.randrange(1, 4)]
    spec = {}
    for im in names:
        w, h = R.choice([(120, 90), (90, 120), (128, 64), (96, 96), (200, 100)])
        img = texture(w, h, rs, R.random() < .8) if R.random() < .9 else np.full((h, w, 3), 77, np.uint8)
        cv2.imwrite(path + "/images/" + im, img[:, :, ::-1])
        mask = None
        if R.random() < .5:
            mask = np.full((h, w), 255, np.uint8)
            mask[:, :w // 2] = 0
            if R.random() < .15:
                mask[:] = 0
            os.makedirs(path + "/masks", exist_ok=True)
            cv2.imwrite(path + "/masks/" + im + ".png", mask)
        spec[im] = (w, h, mask)
    data = DataSet(path)
    cams = {}
    for im in names:
        w, h, mask = spec[im]
        pano = (w, h) == (200, 100)
        c = pygeometry.Camera.create_spherical() if pano else pygeometry.Camera.create_perspective(.9, 0, 0)
        c.id, c.width, c.height = "cam" + im, w, h
        cams[c.id] = c
        data.save_exif(im, dict(camera=c.id, width=w, height=h, orientation=1))
    data.save_camera_models(cams)
    evs = []

    def ev(op, **k):
        e = dict(op=op, exc="")
        e.update(k)
        evs.append(e)
        return e
    # an interrupted run: only some images
    part = [im for im in names if R.random() < .4]
    force = R.random() < .3
    try:
        fp.run_features_processing(data, part, False)
        stamp = {}
        for im in part:
            fpth = data._feature_file(im)
            os.utime(fpth, (1000, 1000))
            stamp[im] = 1
            if words and R.random() < .3:
                os.unlink(data._words_file(im))
                stamp[im] = 0
        if force:
            fp.run_features_processing(data, data.images(), True)
        else:
            from opensfm.actions import detect_features
            detect_features.run_dataset(data)
    except Exception as e:
        ev("run", exc=exc_name(e) + ": " + str(e)[:200], ft=ft)
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        cases.append(dict(kind="run", events=evs))
        shutil.rmtree(path, ignore_errors=True)
        return
    data = DataSet(path)
    for im in names:
        w, h, mask = spec[im]
        pano = w == 2 * h
        e = ev("image", stored=[], sizes=[], extracted=[], visible=[], report=-1, rewritten=0, mustkeep=0, words=[], dist=[], nw=0, slack=0, inside=[], colors=[], pixels=[],
               unit=[], other=[], otherx=[])
        try:
            cfgd = dict(data.config)
            img = data.load_image(im)
            size = cfgd["feature_process_size_panorama" if pano else "feature_process_size"]
            small = img
            if 0 < size < max(w, h):
                small = cv2.resize(img, dsize=(w * size // max(w, h), h * size // max(w, h)), interpolation=cv2.INTER_AREA)
            free = dict(cfgd, feature_process_size=100000, feature_min_frames=cfgd["feature_min_frames_panorama" if pano else "feature_min_frames"])
            p, d, c = features.extract_features(small.copy(), free, False)
            sh, sw = small.shape[:2]
            e["extracted"] = rows(p, d, c)
            pts = features.denormalized_image_coordinates(p[:, :2], w, h)
            e["visible"] = [1 if mask is None else int(mask[min(h - 1, int(v + .5)), min(w - 1, int(u + .5))] != 0) for u, v in pts]
            # the border of the mask may go either way
            e["visible"] = [2 if mask is not None and abs(u + .5 - w // 2) < 1e-6 else b for b, (u, v) in zip(e["visible"], pts)]
            f = data.load_features(im)
            e["stored"] = rows(f.points, f.descriptors, f.colors)
            e["sizes"] = [q(s) for s in f.points[:, 2]] if len(f.points) else []
            e["report"] = int(json.loads(data.load_report("features/%s.json" % im))["num_features"])
            e["mustkeep"] = int(im in part and not force and (not words or stamp[im]))
            e["rewritten"] = int(os.stat(data._feature_file(im)).st_mtime != 1000)
            ps = np.stack([f.points[:, 0] * max(sw, sh) - .5 + sw / 2., f.points[:, 1] * max(sw, sh) - .5 + sh / 2.], axis=1)
            e["inside"] = [int(-.51 < u < sw - .49 and -.51 < v < sh - .49) for u, v in ps]
            firm = [k for k in range(len(ps)) if abs((ps[k][0] + .5) % 1) > 1e-3 and abs((ps[k][1] + .5) % 1) > 1e-3 and e["inside"][k]][:40]
            e["colors"] = [[int(x) for x in f.colors[k]] for k in firm]
            e["pixels"] = [[int(x) for x in small[int(round(ps[k][1])), int(round(ps[k][0]))]] for k in firm]
            if ft == "SIFT" and data.config["feature_root"]:
                e["unit"] = [q((f.descriptors[k].astype(float) ** 2).sum(), 10000) for k in range(min(20, len(f.descriptors)))]
            if words:
                ws = data.load_words(im)
                voc = np.load(VOC)["words"].astype(int)
                e["nw"] = int(data.config["bow_words_to_match"])
                e["nwrows"] = len(ws)
                e["slack"] = 6 if data.config["bow_matcher_type"] == "FLANN" else 0   # an approximate search
                sub = R.sample(range(len(ws)), min(12, len(ws)))
                e["words"] = [[int(x) for x in ws[k]] for k in sub]
                e["dist"] = [[int(x) for x in ((voc - f.descriptors[k].astype(int)) ** 2).sum(axis=1)] for k in sub]
        except Exception as x:
            e["exc"] = exc_name(x) + ": " + str(x)[:200]
        if "nwrows" not in e:
            e["nwrows"] = -1
    cases.append(dict(kind="run", events=evs))
    shutil.rmtree(path, ignore_errors=True)


# ------------------------------------------------------------- parallel_map
def pm_case(n):
    args = list(range(R.choice([0, 1, 2, 3, 7, 20])))
    procs = R.choice([1, 2, 3, 8])
    bad = R.choice(args) if args and R.random() < .3 else -1
    calls = []
    lock = threading.Lock()
    before = cv2.getNumThreads()

    def f(x):
        with lock:
            calls.append(x)
        time.sleep(R.choice([0, 0, .001, .003]))
        if x == bad:
            raise ValueError("bad%d" % x)
        return 3 * x + 1
    e = dict(op="map", n=len(args), bad=bad, exc="", res=[], calls=[], threads=0)
    try:
        e["res"] = context.parallel_map(f, args, procs, R.choice([0, 1, 4]))
    except Exception as x:
        e["exc"] = exc_name(x) + " " + str(x)
    e["calls"] = sorted(calls)
    e["threads"] = int(cv2.getNumThreads() == before)
    cv2.setNumThreads(before)
    cases.append(dict(kind="map", events=[e]))


if not hung:
    for n in range(inp["maps"]):
        pm_case(n)
    for n in range(inp["runs"]):
        progress(dict(run=n))
        run_case(n)
save_output(dict(cases=cases))
os._exit(0)
