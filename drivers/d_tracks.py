import math
from vcommon import *
import numpy as np
from opensfm import features as ofeatures, pymap, config as oconfig
from opensfm.actions import create_tracks

inp = load_input()
R = rng("tracks")


class FakeData:
    def __init__(self, images, feats, matches, cfg):
        self._images, self._f, self._m = images, feats, matches
        self.config = cfg
        self.tm = None

    def images(self):
        return list(self._images)

    def load_features(self, im):
        return self._f.get(im)

    def load_matches(self, im):
        if im not in self._m:
            raise IOError("no matches for " + im)
        return self._m[im]

    def save_tracks_manager(self, tm):
        self.tm = tm

    def save_report(self, *a, **k):
        pass


def attr(x, y, s, col, seg, inst, depth):
    return "|".join([tok(x), tok(y), tok(s), ",".join(str(int(v)) for v in col), str(seg), str(inst), depth])


def make_case(cid, images, nfeat, links_by_pair, minlen, drop_matches=(), extra_images=(), semantic="mix", depth_on=True):
    cfg = oconfig.default_config()
    cfg["min_track_length"] = minlen
    cfg["depth_std_deviation_m_default"] = R.choice([1.0, 0.25, 2.0])
    cfg["depth_is_radial"] = R.random() < 0.5
    NO = pymap.Observation.NO_SEMANTIC_VALUE
    feats, table = {}, []
    for n, im in enumerate(list(images) + list(extra_images)):
        k = nfeat[im]
        pts = np.array([[(R.randrange(-400, 400)) / 1024.0, R.randrange(-400, 400) / 1024.0,
                         R.randrange(1, 64) / 4096.0, R.randrange(360)] for _ in range(k)], dtype=float).reshape(k, 4)
        colors = np.array([[R.randrange(256) for _ in range(3)] for _ in range(k)], dtype=np.uint8).reshape(k, 3)
        mode = R.randrange(3)
        sem = None
        seg = inst = None
        if mode >= 1:
            seg = np.array([R.randrange(0, 20) for _ in range(k)], dtype=np.uint8)
            inst = np.array([R.randrange(0, 9) for _ in range(k)], dtype=np.int16) if mode == 2 else None
            sem = ofeatures.SemanticData(seg, inst, [{"name": str(j)} for j in range(20)])
        depths = None
        if depth_on and R.random() < 0.4:
            depths = np.array([R.choice([float("nan"), float("inf"), float("-inf"), 0.0, 0.5, 3.0, 12.25, 1e6]) for _ in range(k)])
        feats[im] = ofeatures.FeaturesData(pts, np.zeros((k, 2), dtype=np.uint8), colors, sem, depths=depths)
        for j in range(k):
            d = "-"
            if depths is not None and math.isfinite(depths[j]):
                sd = cfg["depth_std_deviation_m_default"]
                d = "%s/%s/%d" % (tok(depths[j]), tok(max(sd * depths[j], sd)), cfg["depth_is_radial"])
            table.append([im, j, attr(pts[j][0], pts[j][1], pts[j][2], colors[j],
                                      int(seg[j]) if seg is not None else NO,
                                      int(inst[j]) if inst is not None else NO, d)])
    matches = {}
    for (a, b), l in links_by_pair:
        matches.setdefault(a, {})[b] = np.array(l, dtype=int).reshape(-1, 2) if R.random() < 0.5 else [tuple(x) for x in l]
    for im in drop_matches:
        matches.pop(im, None)
    mlist = [[a, b, [[int(x), int(y)] for x, y in l]] for a in matches for b, l in matches[a].items()]
    case = {"id": cid, "images": list(images), "minlen": minlen, "feat": table or [["-", 0, "-"]], "matches": mlist}
    progress(case)
    data = FakeData(images, feats, matches, cfg)
    ev = {"op": "create", "exc": "", "tracks": [], "consistent": True}
    try:
        create_tracks.run_dataset(data)
        tm = data.tm
        for t in tm.get_track_ids():
            obs = []
            for im, o in tm.get_track_observations(t).items():
                d = "-"
                if o.depth_prior is not None:
                    d = "%s/%s/%d" % (tok(o.depth_prior.value), tok(o.depth_prior.std_deviation), o.depth_prior.is_radial)
                obs.append([im, int(o.id), attr(o.point[0], o.point[1], o.scale, o.color, o.segmentation, o.instance, d)])
            ev["tracks"].append(obs)
        per_shot = {(im, t, o.id) for im in tm.get_shot_ids() for t, o in tm.get_shot_observations(im).items()}
        per_track = {(im, t, o.id) for t in tm.get_track_ids() for im, o in tm.get_track_observations(t).items()}
        ev["consistent"] = per_shot == per_track
    except Exception as e:
        ev["exc"] = exc_name(e)
    case["events"] = [ev]
    return case


cases = []
for n, b in enumerate(inp["behaviours"]):
    by = {}
    links = list(b["links"])
    R.shuffle(links)
    for (a, fa), (c, fc) in links:
        # the same link may be stored under either image
        if R.random() < 0.5:
            by.setdefault(("im%d" % a, "im%d" % c), []).append((fa, fc))
        else:
            by.setdefault(("im%d" % c, "im%d" % a), []).append((fc, fa))
    items = list(by.items())
    ims = ["im1", "im2", "im3"]
    cases.append(make_case("spec-%d" % n, ims, {i: 2 for i in ims}, items, 2, depth_on=False))

for n in range(inp["random"]):
    k = R.randrange(2, 9)
    ims = ["%s%d.jpg" % (R.choice(["a", "b", "Z"]), j) for j in range(k)]
    R.shuffle(ims)
    extra = ["x%d" % j for j in range(R.randrange(0, 2))]
    nf = {i: R.randrange(1, 9) for i in ims + extra}
    links = {}
    style = R.randrange(4)
    # ground truth "points" with noise links
    pts = [[(i, R.randrange(nf[i])) for i in ims if R.random() < 0.6] for _ in range(R.randrange(1, 12))]
    if style == 0:
        # clean: injective feature assignment
        pts = [[(i, p) for i in ims if p < nf[i] and R.random() < 0.7] for p in range(8)]
    for p in pts:
        p = list(p)
        R.shuffle(p)
        for a, b in zip(p, p[1:]):
            if a[0] != b[0]:
                links.setdefault((a[0], b[0]), []).append((a[1], b[1]))
        if len(p) > 2 and R.random() < 0.4 and p[0][0] != p[-1][0]:
            links.setdefault((p[0][0], p[-1][0]), []).append((p[0][1], p[-1][1]))
    for _ in range(R.randrange(0, 3)):
        a, b = R.choice(ims + extra), R.choice(ims + extra)
        if a != b:
            links.setdefault((a, b), []).append((R.randrange(nf[a]), R.randrange(nf[b])))
    if R.random() < 0.3 and links:
        key = R.choice(list(links))
        links[key] = links[key] + [links[key][0]]
    if R.random() < 0.2:
        a, b = R.sample(ims, 2) if k > 1 else (ims[0], ims[0])
        links.setdefault((a, b), [])
    drop = [R.choice(ims)] if R.random() < 0.2 else []
    cases.append(make_case("rand-%d" % n, ims, nf, list(links.items()), R.choice([2, 2, 2, 3, 4]), drop, extra))
# long chains (deep union-find trees) and stars
for n in range(6):
    m = R.randrange(40, 70)
    ims = ["c%03d" % j for j in range(m)]
    order = list(range(m - 1))
    R.shuffle(order)
    links = {}
    for j in order:
        links.setdefault((ims[j], ims[j + 1]), []).append((0, 0))
        if R.random() < 0.1:
            links[(ims[j], ims[j + 1])].append((1, 1))
    cases.append(make_case("chain-%d" % n, ims, {i: 2 for i in ims}, list(links.items()), R.choice([2, 5])))
save_output({"cases": cases})
