"""Reconstruction and camera (de)serialisation round trips."""
import json
import os
from recval import *
from opensfm import io
from opensfm.dataset import DataSet, UndistortedDataSet

inp = load_input()
R = rng("json")
root = os.path.join(SCRATCH, "data")
os.makedirs(root + "/images", exist_ok=True)
open(root + "/images/a.jpg", "w").close()
ds = DataSet(root)
uds = UndistortedDataSet(ds, os.path.join(root, "und"))
os.makedirs(os.path.join(root, "und"), exist_ok=True)


def rows_of_all(recs, **k):
    return [["%d/%s" % (i, r[0]), r[1], r[2]] for i, rec in enumerate(recs) for r in rec_rows(rec, **k)]


def via(recs, how):
    if how == "json":
        return io.reconstructions_from_json(io.json_loads(io.json_dumps(io.reconstructions_to_json(recs))))
    if how == "minified":
        return io.reconstructions_from_json(io.json_loads(io.json_dumps(io.reconstructions_to_json(recs), minify=True)))
    if how == "dataset":
        ds.save_reconstruction(recs)
        assert ds.reconstruction_exists()
        return ds.load_reconstruction()
    if how == "dataset_named":
        ds.save_reconstruction(recs, "rec.other.json", minify=True)
        assert ds.reconstruction_exists("rec.other.json")
        return ds.load_reconstruction("rec.other.json")
    if how == "undistorted":
        uds.save_undistorted_reconstruction(recs)
        return uds.load_undistorted_reconstruction()
    if how == "twice":
        a = io.json_dumps(io.reconstructions_to_json(via(recs, "json")))
        return io.reconstructions_from_json(io.json_loads(a))
    if how == "legacy":
        j = io.reconstructions_to_json(recs)
        for r in j:
            r.pop("rig_cameras", None), r.pop("rig_instances", None), r.pop("biases", None)
        return io.reconstructions_from_json(json.loads(json.dumps(j)))


HOW = ["json", "minified", "dataset", "dataset_named", "undistorted", "twice"]
cases = []


def event(what, want, fn, tol=4):
    e = {"op": "same", "what": what, "want": want, "got": [], "exc": "", "tol": tol}
    try:
        e["got"] = fn()
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)
    return e


def case(cid, evs):
    cases.append({"id": cid, "events": evs})


for n in range(inp["random"]):
    recs = [rand_rec(R, observations=R.random() < .3) for _ in range(R.choice([0, 1, 1, 1, 2, 3]))]
    progress({"case": "rec-%d" % n})
    evs = []
    for how in R.sample(HOW, 2):
        evs.append(event("saving and loading (%s)" % how, rows_of_all(recs), lambda: rows_of_all(via(recs, how))))
    before = rows_of_all(recs)
    io.reconstructions_to_json(recs)
    evs.append(event("serialising leaves the reconstruction alone", before, lambda: rows_of_all(recs), 0))
    case("rec-%d" % n, evs)
for n in range(inp["random"] // 4):
    # documents without any rig section: shots carry their own pose
    rec = rand_rec(R, rigs=False, panos=False)
    for c in rec.cameras:
        rec.set_bias(c, pygeometry.Similarity(np.zeros(3), np.zeros(3), 1.0))
    progress({"case": "legacy-%d" % n})
    case("legacy-%d" % n, [event("loading a document without rigs", rows_of_all([rec], rigs="used"),
                                 lambda: rows_of_all(via([rec], "legacy"), rigs="used"))])
for n in range(inp["random"]):
    cams = {}
    for pt in CAMTYPES:
        cid = R.choice(["v2 a b 4000 3000 %s 0.5", "cam/%s", "é %s"]) % pt
        cams[cid] = make_camera(R, cid, pt)
    progress({"case": "cams-%d" % n})
    rows = [r for i, c in cams.items() for r in camera_rows(c, i)]

    def back(d):
        assert set(d) == {c.id for c in d.values()}
        return [r for i, c in d.items() for r in camera_rows(c, i)]

    def vec():
        return back({i: io.camera_from_vector(c.id, c.width, c.height, c.projection_type, [float(x) for x in io.camera_to_vector(c)])
                     for i, c in cams.items()})

    def viads():
        ds.save_camera_models(cams)
        return back(ds.load_camera_models())

    def viaov():
        ds.save_camera_models_overrides(cams)
        assert ds.camera_models_overrides_exists()
        return back(ds.load_camera_models_overrides())
    rigs = {"r%d" % j: pymap.RigCamera(rand_pose(R), "r%d" % j) for j in range(R.randrange(1, 4))}

    def rigrows(d):
        return [[i, pose_nums(r.pose), r.id] for i, r in d.items()]

    def viarig():
        ds.save_rig_cameras(rigs)
        return rigrows({i: r for i, r in ds.load_rig_cameras().items() if i in rigs})
    case("cams-%d" % n, [
        event("camera models to JSON and back", rows, lambda: back(io.cameras_from_json(json.loads(io.json_dumps(io.cameras_to_json(cams)))))),
        event("camera models to vectors and back", rows, vec),
        event("camera models to disk and back", rows, viads),
        event("camera overrides to disk and back", rows, viaov),
        event("rig cameras to disk and back", rigrows(rigs), viarig),
        event("rig cameras to JSON and back", rigrows(rigs), lambda: rigrows(io.rig_cameras_from_json(json.loads(json.dumps(io.rig_cameras_to_json(rigs)))))),
    ])
save_output({"cases": cases})
