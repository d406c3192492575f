"""Image pair selection."""
import itertools
import numpy as np
from vcommon import *
from opensfm import pairs_selection as ps, geo, bow, vlad, feature_loader, config as cfgmod
from opensfm.dataset import DataSet
import os

inp = load_input()
R = rng("pairs")
np.random.seed(SEED)
LAT, LON = 47.3, 8.5
REF = geo.TopocentricConverter(LAT, LON, 0.0)
cases = []


class FakeVlad:
    def __init__(self, imgs):
        self.imgs = imgs

    def vlad_histogram(self, data, im):
        v = self.imgs[im]["vec"]
        return np.array(v, dtype=np.float32) if len(v) else None


class FakeBows:
    def histogram(self, words):
        h = np.bincount(words, minlength=8)
        return h.astype(float)


class FakeLoader:
    def __init__(self, imgs):
        self.imgs = imgs

    def load_words(self, data, im, masked):
        b = self.imgs[im]["bow"]
        if not b:
            # absent, or too few words to be usable
            return None if self.imgs[im]["x"] % 2 else np.zeros((8, 3), dtype=int)
        w = [i for i, n in enumerate(b) for _ in range(n)]
        return np.array([[i, 9, 9] for i in w], dtype=int)


def rand_imgs(n, spread, distinct=False):
    names = ["im%02d.jpg" % i for i in range(n)]
    R.shuffle(names)
    used, imgs = set(), {}
    nogps = R.random() < 0.15
    tick = R.choice([1, 1, 60, 86400, 40 * 86400])
    for nm in names:
        while True:
            p = (R.randrange(-spread, spread + 1), R.randrange(-spread, spread + 1))
            if not distinct or p not in used:
                break
        used.add(p)
        bowv = []
        if R.random() < 0.85:
            bowv = [R.randrange(0, 5) for _ in range(8)]
            bowv[R.randrange(8)] += 9
        imgs[nm] = dict(x=p[0], y=p[1], gps=not (nogps and R.random() < 0.4), t=R.randrange(0, 30) * tick, cam=R.choice(["A", "A", "B", "C"]),
                        vec=[R.randrange(0, 6) for _ in range(3)] if R.random() < 0.85 else [], bow=bowv)
    return imgs


def collinear(imgs):
    p = [(i["x"], i["y"]) for i in imgs.values()]
    return all((p[1][0] - p[0][0]) * (c[1] - p[0][1]) == (p[1][1] - p[0][1]) * (c[0] - p[0][0]) for c in p) if len(p) > 1 else True


def exifs_of(imgs, opk=False):
    ex = {}
    o = dict(omega=R.uniform(-20, 20), phi=R.uniform(-20, 20), kappa=R.uniform(-180, 180))
    for n, i in imgs.items():
        lat, lon, _ = REF.to_lla(float(i["x"]), float(i["y"]), 0.0)
        ex[n] = {"camera": i["cam"], "capture_time": float(1500000000 + i["t"]), "orientation": 1}
        if i["gps"]:
            ex[n]["gps"] = {"latitude": lat, "longitude": lon, "altitude": R.uniform(0, 300)}
            if R.random() < 0.2:
                ex[n]["gps"]["dop"] = 5.0
        else:
            ex[n]["gps"] = R.choice([{}, {"altitude": 3.0}])
        if opk:
            ex[n]["opk"] = dict(o)
    return ex


def lim_of(sq):
    return 0 if sq < 0 else (sq + 0.5) ** 0.5


def pairs(s):
    return [[a, b] for a, b in s]


def ev(op, fn, **k):
    e = dict(op=op, exc="", got=[], **k)
    try:
        e["got"] = fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    return e


def pick(names, allow_same=True):
    if R.random() < 0.5:
        l = R.sample(names, R.randrange(1, len(names) + 1))
        return l, list(l)
    return R.sample(names, R.randrange(1, len(names) + 1)), R.sample(names, R.randrange(1, len(names) + 1))


class Conf(dict):
    pass


class Data:
    """Just what pair selection asks of a dataset."""

    def __init__(self):
        self.config = cfgmod.default_config()
        self.config["processes"] = 1

    def init_reference(self, images=None):
        pass

    def load_reference(self):
        return REF


data = Data()
bow.load_bows = lambda config: FakeBows()

# exhaustive small inputs
for n, b in enumerate(inp["small"]):
    progress(b)
    imgs = {i: dict(x=x, y=0, gps=True, t=x, cam="A", vec=[x], bow=[x, 10 - x]) for i, x in b["pos"].items()}
    ex = exifs_of(imgs)
    evs = [ev("distance", lambda e: pairs(ps.match_candidates_by_distance(list(b["refs"]), list(b["cands"]), ex, REF, b["k"], lim_of(b["lim"]))),
              refs=b["refs"], cands=b["cands"], k=b["k"], lim=b["lim"])]
    if b["lim"] < 0:
        evs.append(ev("time", lambda e: pairs(ps.match_candidates_by_time(list(b["refs"]), list(b["cands"]), ex, b["k"])),
                      refs=b["refs"], cands=b["cands"], k=b["k"]))
        evs.append(ev("order", lambda e: pairs(ps.match_candidates_by_order(list(b["refs"]), list(b["cands"]), b["k"])),
                      refs=b["refs"], cands=b["cands"], k=b["k"]))
    cases.append({"id": "small-%d" % n, "imgs": imgs, "events": evs})
for n, b in enumerate(inp["ordered"]):
    progress(b)
    ps_in = {ps.sorted_pair(*p) for p in b["pairs"]}
    cases.append({"id": "ordered-%d" % n, "imgs": {"a": 0}, "events": [
        ev("ordered", lambda e: pairs(ps.ordered_pairs(set(ps_in), list(b["refs"]))), refs=b["refs"], cands=b["pairs"])]})

for n in range(inp["random"]):
    graph = R.random() < 0.35
    imgs = rand_imgs(R.randrange(2, 13), R.choice([3, 10, 60, 300, 3000]) if not graph else R.choice([10, 300]), distinct=graph)
    if graph and (collinear(imgs) or len(imgs) < 4):
        graph = False
    ex = exifs_of(imgs, opk=R.random() < 0.2)
    names = sorted(imgs)
    vlad.instance = FakeVlad(imgs)
    feature_loader.instance = FakeLoader(imgs)
    evs = []
    progress({"case": "rand-%d" % n, "imgs": imgs})
    for _ in range(3):
        refs, cands = pick(names)
        k, lim = R.choice([0, 1, 2, 3, 5, 20]), R.choice([-1, -1, 4, 50, 1000, 20000])
        evs.append(ev("distance", lambda e: pairs(ps.match_candidates_by_distance(list(refs), list(cands), ex, REF, k, lim_of(lim))),
                      refs=refs, cands=cands, k=k, lim=lim))
        refs, cands = pick(names)
        k = R.choice([0, 1, 2, 3, 4, 7])
        evs.append(ev("time", lambda e: pairs(ps.match_candidates_by_time(list(refs), list(cands), ex, k)), refs=refs, cands=cands, k=k))
        refs, cands = pick(names)
        evs.append(ev("order", lambda e: pairs(ps.match_candidates_by_order(list(refs), list(cands), k)), refs=refs, cands=cands, k=k))
    if graph and all(i["gps"] for i in imgs.values()):
        # all images take part, so that the triangulation is never flat
        for cut in (0, 1):
            cands = R.sample(names, len(names))
            refs = R.sample(names, len(names)) if not cut else R.sample(names, max(1, len(names) // 2))
            k = R.choice([0, 1, 2])
            evs.append(ev("graph", lambda e: pairs(ps.match_candidates_by_graph(list(refs), list(cands), ex, REF, k)), refs=refs, cands=cands, k=k))
    for w in ("vlad", "bow"):
        refs, cands = pick(names)
        gk, glim = R.choice([(0, -1), (0, -1), (3, -1), (0, 2000), (4, 90000)])
        k, oth = R.choice([0, 1, 2, 4]), R.random() < 0.5

        def run(e):
            if w == "vlad":
                hist = {}
                r = ps.match_candidates_with_vlad(data, list(refs), list(cands), ex, REF, k, lim_of(glim), gk, oth, hist)
                e["score"] = [[a, b, int(round(v * v))] for (a, b), v in r.items()]
            else:
                r = ps.match_candidates_with_bow(data, list(refs), list(cands), ex, REF, k, lim_of(glim), gk, oth)
                e["score"] = [[a, b, int(round(v))] for (a, b), v in r.items()]
            return pairs(r)
        evs.append(ev(w, run, refs=refs, cands=cands, k=k, gk=gk, glim=glim, oth=oth, score=[]))
    for _ in range(2):
        same = R.random() < 0.6
        if same:
            cands = refs = R.sample(names, len(names))
        else:
            refs, cands = R.sample(names, R.randrange(1, len(names) + 1)), R.sample(names, R.randrange(1, len(names) + 1))
        if graph and set(refs) | set(cands) != set(names):
            refs = cands = list(names)
        z = (lambda vals: R.choice(vals) if R.random() < 0.4 else 0)
        c = dict(gk=z([1, 2, 4]), glim=z([4, 1000]) or -1, graph=z([1]) if graph and all(i["gps"] for i in imgs.values()) else 0,
                 tk=z([1, 2, 3]), ok=z([1, 2, 5]), bk=z([1, 2]), bgk=z([3]), bglim=z([1000]) or -1, both=R.random() < 0.4,
                 vk=z([1, 2]), vgk=z([3]), vglim=z([1000]) or -1, voth=R.random() < 0.4)
        over = dict(matching_gps_distance=lim_of(c["glim"]), matching_gps_neighbors=c["gk"], matching_graph_rounds=c["graph"],
                    matching_time_neighbors=c["tk"], matching_order_neighbors=c["ok"], matching_bow_neighbors=c["bk"],
                    matching_bow_gps_distance=lim_of(c["bglim"]), matching_bow_gps_neighbors=c["bgk"], matching_bow_other_cameras=c["both"],
                    matching_vlad_neighbors=c["vk"], matching_vlad_gps_distance=lim_of(c["vglim"]), matching_vlad_gps_neighbors=c["vgk"],
                    matching_vlad_other_cameras=c["voth"])
        inbase = {k for k in over if R.random() < 0.3}   # through the dataset's configuration or the override
        data.config = cfgmod.default_config()
        data.config["processes"] = 1
        data.config.update({k: v for k, v in over.items() if k in inbase})
        ovr = {k: v for k, v in over.items() if k not in inbase}

        def run(e):
            r, c2 = list(refs), list(cands)
            if refs is cands:
                c2 = r
            out, rep = ps.match_candidates_from_metadata(r, c2, {i: ex[i] for i in set(r) | set(c2)}, data, ovr)
            e["refs"], e["cands"] = sorted(refs), list(c2)
            e["rep"] = [int(rep["num_pairs_" + x]) for x in ("distance", "graph", "time", "order", "bow", "vlad")]
            return pairs(out)
        evs.append(ev("metadata", run, refs=sorted(refs), cands=list(cands), cfg=c, rep=[]))
    cases.append({"id": "rand-%d" % n, "imgs": imgs, "events": evs})
save_output({"cases": cases})
