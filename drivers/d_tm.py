"""Drive the real TracksManager through histories, queries and persistence."""
import os
import numpy as np
from vcommon import *
from opensfm import pymap, tracking
from opensfm.dataset import DataSet, UndistortedDataSet

inp = load_input()
MODE = inp["mode"]
R = rng("tm-" + MODE)
Observation = pymap.Observation
TM = pymap.TracksManager


def g6(x):
    return float("%.6g" % x)


def mkobs(f, rich=True, depth=False):
    x, y, s = (g6(R.uniform(-0.5, 0.5)) for _ in range(3))
    s = abs(s)
    col = [R.randrange(256) for _ in range(3)]
    seg, inst = (R.randrange(0, 60), R.randrange(0, 300)) if rich and R.random() < 0.6 else (-1, -1)
    o = Observation(x, y, s, col[0], col[1], col[2], f, seg, inst)
    if depth and R.random() < 0.4:
        o.depth_prior = pymap.Depth(value=g6(R.uniform(1, 9)), std_deviation=g6(R.uniform(0, 1)), is_radial=R.random() < 0.5)
    return o


def val(o):
    d = "-"
    if o.depth_prior is not None:
        d = "%s/%s/%d" % (tok(o.depth_prior.value), tok(o.depth_prior.std_deviation), o.depth_prior.is_radial)
    return "|".join([str(o.id), tok(o.point[0]), tok(o.point[1]), tok(o.scale),
                     ",".join(str(int(c)) for c in o.color), str(o.segmentation), str(o.instance), d])


def dump(tm):
    d = {"exc": "", "shots": [], "tracks": [], "ns": 0, "nt": 0, "byShot": [], "byTrack": []}
    try:
        d["shots"], d["tracks"] = list(tm.get_shot_ids()), list(tm.get_track_ids())
        d["ns"], d["nt"] = tm.num_shots(), tm.num_tracks()
        d["byShot"] = [[s, t, val(o), o.id] for s in d["shots"] for t, o in tm.get_shot_observations(s).items()]
        d["byTrack"] = [[s, t, val(o), o.id] for t in d["tracks"] for s, o in tm.get_track_observations(t).items()]
    except Exception as e:
        d["exc"] = exc_name(e) + ": " + str(e)
    return d


class Run:
    def __init__(self, cid):
        self.tm = TM()
        self.ev = []
        self.cid = cid

    def case(self):
        return {"id": self.cid, "events": self.ev}

    def guard(self, e, fn, default=None):
        e["exc"] = ""
        try:
            r = fn()
        except Exception as x:
            e["exc"] = exc_name(x) + ": " + str(x)
            r = default
        self.ev.append(e)
        progress({"case": self.cid, "last": e["op"]})
        return r

    def add(self, s, t, o):
        self.guard({"op": "add", "s": s, "t": t, "v": val(o)}, lambda: self.tm.add_observation(s, t, o))

    def remove(self, s, t):
        self.guard({"op": "remove", "s": s, "t": t}, lambda: self.tm.remove_observation(s, t))

    def become_sub(self, T, S):
        e = {"op": "become_sub", "t": T, "s": S}

        def f():
            sub = self.tm.construct_sub_tracks_manager(T, S)
            e["dump"] = dump(sub)
            return sub
        e["dump"] = {"exc": "no result", "shots": [], "tracks": [], "ns": 0, "nt": 0, "byShot": [], "byTrack": []}
        r = self.guard(e, f)
        if r is not None:
            self.tm = r

    def dump(self):
        self.ev.append({"op": "dump", "exc": "", "dump": dump(self.tm)})

    def get(self, s, t):
        e = {"op": "get", "s": s, "t": t, "v": ""}

        def f():
            e["v"] = val(self.tm.get_observation(s, t))
        self.guard(e, f)

    def getlist(self, kind, i):
        e = {"op": "getlist", "kind": kind, "id": i, "res": []}

        def f():
            m = self.tm.get_shot_observations(i) if kind == "shot" else self.tm.get_track_observations(i)
            e["res"] = [[k, val(o)] for k, o in m.items()]
        self.guard(e, f)

    # ---- queries ----
    def sub(self, T, S):
        e = {"op": "sub", "t": T, "s": S, "dump": dump(TM())}
        e["dump"]["exc"] = "no result"

        def f():
            e["dump"] = dump(self.tm.construct_sub_tracks_manager(T, S))
        self.guard(e, f)

    def common(self, a, b, how):
        e = {"op": "common", "a": a, "b": b, "res": [], "how": how}

        def f():
            if how == "cpp":
                e["res"] = [[t, val(o1), val(o2)] for t, o1, o2 in self.tm.get_all_common_observations(a, b)]
            else:
                ts, p1, p2 = tracking.common_tracks(self.tm, a, b)
                # translate points back into the observations they came from
                res = []
                assert len(ts) == len(p1) == len(p2)
                for t, x, y in zip(ts, p1, p2):
                    o1, o2 = self.tm.get_observation(a, t), self.tm.get_observation(b, t)
                    res.append([t, val(o1) if np.array_equal(o1.point, x) else "point mismatch",
                                val(o2) if np.array_equal(o2.point, y) else "point mismatch"])
                e["res"] = res
        self.guard(e, f)

    def pairs(self, S, T):
        e = {"op": "pairs", "s": S, "t": T, "res": []}

        def f():
            kw = {}
            if S:
                kw["shots"] = S
            if T:
                kw["tracks"] = T
            e["res"] = [[a, b, n] for (a, b), n in self.tm.get_all_pairs_connectivity(**kw).items()]
        self.guard(e, f)

    def allcommon(self, m, feat):
        e = {"op": "allcommon", "min": m, "feat": feat, "res": []}

        def f():
            res = []
            if feat:
                r = tracking.all_common_tracks_with_features(self.tm, min_common=m)
                for (a, b), (ts, p1, p2) in r.items():
                    assert len(ts) == len(p1) == len(p2)
                    l = []
                    for t, x, y in zip(ts, p1, p2):
                        o1, o2 = self.tm.get_observation(a, t), self.tm.get_observation(b, t)
                        l.append([t, val(o1) if np.array_equal(o1.point, x) else "point mismatch",
                                  val(o2) if np.array_equal(o2.point, y) else "point mismatch"])
                    res.append([a, b, l])
            else:
                r = tracking.all_common_tracks_without_features(self.tm, min_common=m)
                res = [[a, b, [[t] for t in ts]] for (a, b), ts in r.items()]
            e["res"] = res
        self.guard(e, f)

    def graph(self):
        e = {"op": "graph", "shots": [], "tracks": [], "edges": []}

        def f():
            g = tracking.as_graph(self.tm)
            e["shots"] = [n for n, d in g.nodes(data=True) if d["bipartite"] == 0]
            e["tracks"] = [n for n, d in g.nodes(data=True) if d["bipartite"] == 1]
            for u, v, d in g.edges(data=True):
                im, t = (u, v) if g.nodes[u]["bipartite"] == 0 else (v, u)
                o = self.tm.get_observation(im, t)
                dp = val(o).split("|")[-1]
                e["edges"].append([im, t, "|".join([
                    str(d["feature_id"]), tok(d["feature"][0]), tok(d["feature"][1]), tok(d["feature_scale"]),
                    ",".join(str(int(c)) for c in d["feature_color"]), str(d["feature_segmentation"]),
                    str(d["feature_instance"]), dp])])
        self.guard(e, f)

    def wgraph(self):
        e = {"op": "wgraph", "shots": [], "edges": []}

        def f():
            g = tracking.as_weighted_graph(self.tm)
            e["shots"] = list(g.nodes())
            e["edges"] = [[u, v, d["weight"]] for u, v, d in g.edges(data=True)]
        self.guard(e, f)


def flat(tm):
    return [[s, t, val(o), o.id] for s in tm.get_shot_ids() for t, o in tm.get_shot_observations(s).items()]


def rand_history(run, n, S, T, depth=True, p_remove=0.25):
    for _ in range(n):
        s, t = R.choice(S), R.choice(T)
        x = R.random()
        if x < p_remove:
            run.remove(s, t)
        else:
            run.add(s, t, mkobs(R.randrange(30), depth=depth))


cases = []
TABLE = {1: mkobs(0), 2: mkobs(1, depth=True)}
SH = ["img_%d.jpg" % i for i in range(8)]
TR = [str(i) for i in range(14)]

if MODE == "store":
    for n, b in enumerate(inp["behaviours"]):
        r = Run("spec-%d" % n)
        for a in b["h"]:
            if a["op"] == "add":
                r.add("s%s" % a["s"], "t%s" % a["t"], TABLE[a["v"]])
            elif a["op"] == "remove":
                r.remove("s%s" % a["s"], "t%s" % a["t"])
            else:
                r.become_sub(["t%s" % x for x in a["t"]], ["s%s" % x for x in a["s"]])
        r.dump()
        for s in (1, 2, 9):
            r.getlist("shot", "s%d" % s)
            r.getlist("track", "t%d" % s)
            for t in (1, 2, 9):
                r.get("s%d" % s, "t%d" % t)
        cases.append(r.case())
    for n in range(inp["random"]):
        r = Run("rand-%d" % n)
        S, T = R.sample(SH, R.randrange(1, 8)), R.sample(TR, R.randrange(1, 12))
        for _ in range(R.randrange(1, 5)):
            rand_history(r, R.randrange(1, 25), S, T)
            r.dump()
            if R.random() < 0.2:
                r.become_sub(R.sample(TR, R.randrange(0, 14)), R.sample(SH, R.randrange(0, 8)))
        for _ in range(5):
            r.get(R.choice(SH + ["nope"]), R.choice(TR))
            r.getlist("shot", R.choice(SH))
            r.getlist("track", R.choice(TR))
        cases.append(r.case())
elif MODE == "query":
    for n in range(inp["random"]):
        r = Run("rand-%d" % n)
        S, T = R.sample(SH, R.randrange(1, 8)), R.sample(TR, R.randrange(1, 14))
        rand_history(r, R.randrange(0, 70), S, T, p_remove=R.choice([0, 0, 0.2, 0.4]))
        for _ in range(3):
            r.sub(R.sample(TR + ["zz"], R.randrange(0, 15)), R.sample(SH + ["zz"], R.randrange(0, 9)))
            r.pairs([] if R.random() < 0.4 else R.sample(SH, R.randrange(1, 8)),
                    [] if R.random() < 0.4 else R.sample(TR + ["zz"], R.randrange(1, 14)))
        r.pairs([], [])
        for _ in range(4):
            a, b = R.choice(SH + ["nope"]), R.choice(SH)
            if a != b:
                r.common(a, b, "cpp")
                r.common(b, a, "py")
        for m in (1, 2, R.randrange(0, 6)):
            r.allcommon(m, True)
            r.allcommon(m, False)
        r.graph()
        r.wgraph()
        cases.append(r.case())
    # merging: several managers over the same images
    for n in range(inp["random"]):
        k = R.randrange(0, 5)
        r = Run("merge-%d" % n)
        ms = []
        nf = R.randrange(1, 7)
        for j in range(k):
            tm = TM()
            S = R.sample(SH, R.randrange(1, 6))
            used = set()
            for _ in range(R.randrange(0, 14)):
                s, f = R.choice(S), R.randrange(nf)
                # usually one feature belongs to one track of its manager, as tracks produce it
                if (s, f) in used and R.random() < 0.9:
                    continue
                used.add((s, f))
                tm.add_observation(s, R.choice(TR[:6]), mkobs(f))
            if R.random() < 0.2 and tm.num_tracks():
                t = tm.get_track_ids()[0]
                for s in list(tm.get_track_observations(t)):
                    tm.remove_observation(s, t)
            ms.append(tm)
        e = {"op": "merge", "managers": [flat(m) for m in ms], "dump": dump(TM())}
        e["dump"]["exc"] = "no result"

        def f():
            e["dump"] = dump(TM.merge_tracks_manager(ms))
        progress(e)
        r.guard(e, f)
        e2 = [flat(m) for m in ms]
        if e2 != e["managers"]:
            e["dump"]["exc"] = "merging modified its inputs"
        cases.append(r.case())
elif MODE == "persist":
    import json
    root = os.path.join(SCRATCH, "data")
    os.makedirs(root + "/images", exist_ok=True)
    open(root + "/images/a.jpg", "w").close()
    ds = DataSet(root)
    uds = UndistortedDataSet(ds, os.path.join(root, "und"))

    def via(tm, how):
        if how == "string":
            return TM.instanciate_from_string(tm.as_string())
        if how == "file":
            p = os.path.join(SCRATCH, "t.csv")
            tm.write_to_file(p)
            return TM.instanciate_from_file(p)
        if how == "dataset":
            ds.save_tracks_manager(tm)
            assert ds.tracks_exists()
            return ds.load_tracks_manager()
        if how == "dataset_named":
            ds.save_tracks_manager(tm, "other.csv")
            assert ds.tracks_exists("other.csv")
            return ds.load_tracks_manager("other.csv")
        os.makedirs(os.path.join(root, "und"), exist_ok=True)
        uds.save_undistorted_tracks_manager(tm)
        return uds.load_undistorted_tracks_manager()

    HOW = ["string", "file", "dataset", "dataset_named", "undistorted"]
    for n in range(inp["random"]):
        r = Run("rt-%d" % n)
        ids = ["a b.jpg", "x,y.png", "ünï.jpg", "IMG_0001.JPG", "-", "0", "sub/dir.jpg", "v2"]
        S, T = R.sample(ids, R.randrange(1, 8)), R.sample(TR + ["weird id", "é", "-1"], R.randrange(1, 12))
        for _ in range(R.randrange(0, 40)):
            s, t = R.choice(S), R.choice(T)
            if R.random() < 0.15:
                r.remove(s, t)
            else:
                o = mkobs(R.choice([0, 5, 7, 123456, 2000000000]))
                if R.random() < 0.2:
                    o = Observation(R.choice([0.0, -0.0, 1e-5, -0.5, 1.25e-7]), 0.25, R.choice([0.0, 1e-6, 3.0]), 0, 255, 7, 3, R.choice([0, -1, 254]), R.choice([0, -1, 65000]))
                r.add(s, t, o)
        for how in (HOW if n % 4 == 0 else R.sample(HOW, 2)):
            e = {"op": "roundtrip", "how": how, "dump": dump(TM())}

            def f():
                e["dump"] = dump(via(r.tm, how))
            r.guard(e, f)
        r.dump()
        cases.append(r.case())
    # all three historical formats and malformed input
    for n in range(inp["random"]):
        r = Run("load-%d" % n)
        ver = R.choice([0, 1, 2])
        rows, lines = {}, []
        for _ in range(R.randrange(0, 9)):
            s, t = R.choice(SH), R.choice(TR)
            o = mkobs(R.randrange(99))
            cols = [s, t, str(o.id), repr(float(o.point[0])), repr(float(o.point[1]))]
            if ver >= 1:
                cols.append(repr(float(o.scale)))
            else:
                o.scale = 0.0
            cols += [str(int(c)) for c in o.color]
            if ver >= 2:
                cols += [str(o.segmentation), str(o.instance)]
            else:
                o.segmentation = o.instance = Observation.NO_SEMANTIC_VALUE
            rows[(s, t)] = val(o)
            lines.append("\t".join(cols))
        bad = False
        kind = R.choice(["ok", "ok", "ok", "drop", "extra", "blank", "nonnum", "nonnum", "version", "missing"])
        header = ver
        if kind in ("drop", "extra", "nonnum") and lines:
            k = R.randrange(len(lines))
            c = lines[k].split("\t")
            if kind == "drop":
                c = c[:-1]
            elif kind == "extra":
                c.append("7")
            else:
                c[R.randrange(2, len(c))] = R.choice(["x", "x", "nine", "-", "one2", "#"])
            lines[k] = "\t".join(c)
            bad = True
        elif kind == "blank" and lines:
            lines.insert(R.randrange(len(lines)), "")
            bad = True
        elif kind == "version":
            header = R.choice([3, 7, 12])
            bad = True
        head = [] if header == 0 else ["OPENSFM_TRACKS_VERSION_v%d" % header]
        text = "".join(x + "\n" for x in head + lines)
        if not bad and R.random() < 0.3:
            text = text[:-1] if lines and text else text
        p = os.path.join(SCRATCH, "in.csv")
        if kind == "missing":
            bad = True
            if os.path.exists(p):
                os.unlink(p)
        else:
            open(p, "w").write(text)
        for how in ("file", "string") if kind != "missing" else ("file",):
            e = {"op": "load", "how": how, "kind": kind, "text": text, "bad": bad,
                 "rows": [[s, t, v] for (s, t), v in rows.items()], "dump": dump(TM())}

            def f():
                tm = TM.instanciate_from_file(p) if how == "file" else TM.instanciate_from_string(text)
                e["dump"] = dump(tm)
            r.guard(e, f)
        cases.append(r.case())
    for n in range(inp["random"] // 4):
        r = Run("precise-%d" % n)
        tm = TM()
        want = {}
        for j in range(R.randrange(1, 20)):
            s = R.choice([1e-3, 0.1, 0.5])
            x, y, sc = R.uniform(-s, s), R.uniform(-s, s), R.uniform(0, s)
            k = (R.choice(SH), R.choice(TR))
            tm.add_observation(k[0], k[1], Observation(x, y, sc, 1, 2, 3, j, -1, -1))
            want[k] = [q(v, 10 ** 9) for v in (x, y, sc)]
        e = {"op": "precise", "want": list(want.values()), "got": []}

        def f():
            tm2 = via(tm, R.choice(HOW))
            for s, t in want:
                try:
                    o = tm2.get_observation(s, t)
                except RuntimeError:
                    continue
                e["got"].append([q(v, 10 ** 9) for v in (o.point[0], o.point[1], o.scale)])
        r.guard(e, f)
        cases.append(r.case())
save_output({"cases": cases})
