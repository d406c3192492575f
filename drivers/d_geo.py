"""Geographic frames, ground control points, reference, export in geographic coordinates."""
import io as pio
import json
import math
import os
import shutil
import numpy as np
import pyproj
from vcommon import *
from opensfm import geo, io, pygeometry, pymap, types
from opensfm.actions import export_geocoords
from opensfm.dataset import DataSet

inp = load_input()
R = rng("geo")
cases = []


def case(kind, fn, **k):
    e = dict(op=kind, exc="")
    e.update(k)
    progress(e)
    try:
        fn(e)
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:200]
    cases.append(dict(kind=kind, events=[e]))


def rad(x):
    return int(round(math.radians(x) * 1e6))


def reflat():
    return R.choice([0, 1e-3, 45, -45, 52.123456, -33.9, 78.5, -80, R.uniform(-80, 80)])


def reflon():
    return R.choice([0, 90, 180, -180, 179.9995, -179.9995, -70.6, R.uniform(-180, 180)])


for n in range(inp["near"]):
    la, lo, al = reflat(), reflon(), R.choice([0, 0, 100, -50, 4000, R.uniform(-400, 9000)])
    c = math.cos(math.radians(la))
    K = R.choice([1, 30, 500, 900])
    dlat, dlon, dalt = R.uniform(-K, K) / 111000., R.uniform(-K, K) / 111000. / c, R.choice([0, R.uniform(-200, 200)])
    if R.random() < .1:
        dlat = 0
    if R.random() < .1:
        dlon = 0
    plat, plon, palt = la + dlat, lo + dlon, al + dalt
    if R.random() < .5 and plon > 180:
        plon -= 360
    if R.random() < .5 and plon < -180:
        plon += 360

    def near(e):
        t = geo.TopocentricConverter(la, lo, al)
        x = t.to_topocentric(plat, plon, palt)
        e["got"] = [q(v) for v in x]
        a = t.to_topocentric(np.array([plat, la]), np.array([plon, lo]), np.array([palt, al]))
        e["bulk"] = [[q(v[k]) for v in a] for k in range(2)]
        b = t.to_lla(*x)
        dl = (b[1] - plon + 180) % 360 - 180
        e["back"] = [q(b[0] - plat, 1e9), q(dl, 1e9), q(b[2] - palt, 1e6)]
        b = t.to_lla(np.array([x[0], 0]), np.array([x[1], 0]), np.array([x[2], 0]))
        dl = (b[1][0] - plon + 180) % 360 - 180
        e["back2"] = [q(b[0][0] - plat, 1e9), q(dl, 1e9), q(b[2][0] - palt, 1e6)]
        e["dist"] = [q(geo.gps_distance((la, lo), (plat, plon))), q(geo.gps_distance((plat, plon), (la, lo))), q(geo.gps_distance((la, lo), (la, lo)))]
        t2 = geo.TopocentricConverter(la, lo, al)
        t3 = geo.TopocentricConverter(la + .5, lo, al)
        e["eq"] = [int(bool(t == t2)), int(bool(t == t3))]
    case("near", near, lat=rad(la), alt=q(al / 1e6, 1e6), dlat=int(round(math.radians(dlat) * 1e12)), dlon=int(round(math.radians(dlon) * 1e12)), dalt=q(dalt), got=[], bulk=[], back=[], back2=[], dist=[], eq=[])

for n in range(inp["far"]):
    la = R.choice([90, -90, 0, 89.9999, -89.99, R.uniform(-90, 90), R.uniform(-90, 90)])
    lo, al = R.uniform(-180, 180), R.choice([0, -400, 8848, 30000, R.uniform(-1000, 10000)])
    if R.random() < .2:
        lo = R.choice([0, 90, -90, 180])

    def far(e):
        x = geo.ecef_from_lla(la, lo, al)
        up = geo.ecef_from_lla(la, lo, al + 1000)
        e["ecef"] = [q(v / 1e6) for v in x]
        e["up"] = [q((u - v) / 1000) for u, v in zip(up, x)]
        b = geo.lla_from_ecef(*x)
        dl = 0 if abs(la) == 90 else (b[1] - lo + 180) % 360 - 180
        e["back"] = [q(b[0] - la, 1e9), q(dl * math.cos(math.radians(la)), 1e9), q(b[2] - al, 1e6)]
        y = geo.ecef_from_lla(np.array([la, 10.]), np.array([lo, 20.]), np.array([al, 0.]))
        e["bulk"] = [q(y[k][0] / 1e6) for k in range(3)]
        T = geo.ecef_from_topocentric_transform(la, lo, al)
        e["T"] = [[q(v) for v in row[:3]] for row in T[:3]]
        e["To"] = [q(v / 1e6) for v in T[:3, 3]]
    case("far", far, lat=rad(la), lon=rad(lo), alt=q(al / 1e6, 1e6), ecef=[], up=[], back=[], bulk=[], T=[], To=[])

# ------------------------------------------------------------ control points
PROJ = [("WGS84", None, 4326), ("WGS84 UTM 32N", (9., 48.), "+proj=utm +zone=32 +north +ellps=WGS84 +datum=WGS84 +units=m"),
        ("WGS84 UTM 19S", (-69., -33.), "+proj=utm +zone=19 +south +ellps=WGS84 +datum=WGS84 +units=m"), ("wgs84 utm 33", (15., 50.), "+proj=utm +zone=33 +north +ellps=WGS84 +datum=WGS84 +units=m"),
        ("+proj=utm +zone=31 +north +ellps=WGS84 +datum=WGS84 +units=m +no_defs", (3., 45.), "+proj=utm +zone=31 +north +ellps=WGS84 +datum=WGS84 +units=m"),
        ("EPSG:32633", (15., 50.), "+proj=utm +zone=33 +north +ellps=WGS84 +datum=WGS84 +units=m"), ("epsg:2193", (174., -41.), 2193), ("EPSG:32719", (-69., -33.), 32719)]
for n in range(inp["gcp"]):
    name, center, crs = R.choice(PROJ)
    sizes = {"a.jpg": [100, 80], "b.jpg": [60, 120], "c.png": [7, 7]}
    exif = {k: dict(width=v[0], height=v[1]) for k, v in sizes.items()}
    pts = []
    for k in range(R.randrange(0, 5)):
        lon = R.randrange(-179000000, 179000000) if center is None else int(center[0] * 1e6) + R.randrange(-900000, 900000)
        lat = R.randrange(-89000000, 89000000) if center is None else int(center[1] * 1e6) + R.randrange(-900000, 900000)
        alt = R.choice([[], [0], [R.randrange(-100000, 1000000)]])
        pts.append([lon, lat, alt])
    if len(pts) > 1 and R.random() < .3:
        pts[1] = [pts[0][0], pts[0][1], R.choice([[], [5000]])]
    lines, txt = [], []
    tr = pyproj.Transformer.from_crs(4326, crs if isinstance(crs, int) else pyproj.CRS(crs), always_xy=True)
    for _ in range(R.randrange(0, 9)):
        if not pts:
            break
        p = R.choice(pts)
        im = R.choice(["a.jpg", "b.jpg", "c.png", "unknown.jpg"])
        px, py = R.randrange(0, 1000), R.randrange(-10, 900)
        x, y = (p[0] / 1e6, p[1] / 1e6) if center is None else tr.transform(p[0] / 1e6, p[1] / 1e6)
        lines.append(dict(p=[str(p)], lon=p[0], lat=p[1], alt=p[2], px=px, py=py, im=im, key=pts.index(p) if p not in pts[:pts.index(p)] else 0))
        sep = R.choice([" ", "\t", "  "])
        txt.append(sep.join(["%.7f" % x, "%.7f" % y, R.choice(["NaN", "nan"]) if not p[2] else "%.3f" % (p[2][0] / 1000), "%.1f" % (px / 10), "%.1f" % (py / 10), im]) + R.choice(["", "", " extra words"]))
        if R.random() < .2:
            txt.append(R.choice(["", "# comment", "   "]))
    for l in lines:
        del l["p"]
        l["size"] = sizes.get(l["im"], [])

    def rd(e):
        ps = io.read_gcp_list(pio.StringIO("\n".join([R.choice(["", "# c\n", "\n"]) + name] + txt) + R.choice(["", "\n"])), exif)
        e["got"] = [dict(lon=q(p.lla["longitude"]), lat=q(p.lla["latitude"]), alt=q(p.lla["altitude"], 1000), has=int(p.has_altitude), id=p.id,
                         obs=[[o.shot_id, q(o.projection[0]), q(o.projection[1])] for o in p.observations]) for p in ps]
    case("gcplist", rd, lines=lines, got=[])
    # JSON round trip
    gs = []
    for k in range(R.randrange(0, 4)):
        g = pymap.GroundControlPoint()
        g.id = R.choice(["p", "q é", "3"]) + str(k)
        if R.random() < .85:
            g.lla = {"latitude": R.uniform(-90, 90), "longitude": R.uniform(-180, 180), "altitude": R.uniform(-10, 100)}
            g.has_altitude = R.random() < .6
        for im in R.sample(sorted(sizes), R.randrange(0, 4)):
            o = pymap.GroundControlPointObservation()
            o.shot_id = im
            o.projection = np.array([R.uniform(-.5, .5), R.uniform(-.5, .5)])
            g.add_observation(o)
        gs.append(g)

    def row(p):
        lla = p.lla
        return [p.id, tok(lla["latitude"]) if lla else "", tok(lla["longitude"]) if lla else "", tok(lla["altitude"]) if lla and p.has_altitude else "", int(p.has_altitude) if lla else 0] + [
            [o.shot_id, tok(o.projection[0]), tok(o.projection[1])] for o in p.observations]

    def js(e):
        path = os.path.join(SCRATCH, "gcp")
        os.makedirs(path + "/images", exist_ok=True)
        open(path + "/images/a.jpg", "wb").close()
        d = DataSet(path)
        d.save_exif("a.jpg", dict(width=10, height=10))
        e["before"] = [row(p) for p in gs]
        d.save_ground_control_points(gs)
        e["after"] = [row(p) for p in DataSet(path).load_ground_control_points()]
        shutil.rmtree(path)
    case("gcpjson", js, before=[], after=[])

for n in range(inp["ref"]):
    path = os.path.join(SCRATCH, "ref%d" % n)
    os.makedirs(path + "/images")
    ims = ["%d.jpg" % k for k in range(R.randrange(1, 6))]
    base = [R.randrange(-80000000, 80000000), R.randrange(-170000000, 170000000)]
    rows = []
    for im in ims:
        open(path + "/images/" + im, "wb").close()
        k = R.choice(["gps", "gps", "none", "half", "alt"])
        dop = R.choice([0, 1, 2, 5, 10, 15, 0])
        d = [R.randrange(-9999, 10000), R.randrange(-9999, 10000)]
        g = {}
        if k in ("gps", "half"):
            g["latitude"] = (base[0] + d[0]) / 1e6
        if k == "gps":
            g["longitude"] = (base[1] + d[1]) / 1e6
        if k in ("gps", "alt"):
            g["altitude"] = 300.
        if dop:
            g["dop"] = dop
        rows.append(dict(im=im, ok=int(k == "gps"), dop=dop or 15, d=d, exif=g))
    data = DataSet(path)
    for r in rows:
        ex = dict(width=10, height=10, camera="c")
        if r["exif"] or R.random() < .5:
            ex["gps"] = r.pop("exif")
        else:
            r.pop("exif")
        data.save_exif(r["im"], ex)
    gp = []
    if R.random() < .5:
        gs = []
        for k in range(R.randrange(1, 4)):
            g = pymap.GroundControlPoint()
            g.id = str(k)
            d = [R.randrange(-9999, 10000), R.randrange(-9999, 10000)]
            if R.random() < .8:
                g.lla = {"latitude": (base[0] + d[0]) / 1e6, "longitude": (base[1] + d[1]) / 1e6, "altitude": 3.}
                gp.append(d)
            gs.append(g)
        data.save_ground_control_points(gs)
    sub = R.choice([None, None, R.sample(ims, R.randrange(1, len(ims) + 1))])

    def ref(e):
        data.init_reference(sub)
        r = DataSet(path).load_reference()
        e["got"] = [q(r.lat), q(r.lon), q(r.alt)]
        data.init_reference([])
        r2 = DataSet(path).load_reference()
        e["again"] = [q(r2.lat), q(r2.lon), q(r2.alt)]
    case("ref", ref, rows=[r for r in rows if sub is None or r["im"] in sub], gcp=gp, base=base, got=[], again=[])
    shutil.rmtree(path)

# ------------------------------------------------------------------- export
for n in range(inp["export"]):
    path = os.path.join(SCRATCH, "exp%d" % n)
    os.makedirs(path + "/images")
    os.makedirs(path + "/undistorted/depthmaps")
    name, center, crs = R.choice([p for p in PROJ if p[1]])
    la, lo = center[1] + R.uniform(-.5, .5), center[0] + R.uniform(-.5, .5)
    refr = geo.TopocentricConverter(la, lo, R.choice([0, 0, 120.5]))
    proj = crs if isinstance(crs, str) else "EPSG:%d" % crs
    rec = types.Reconstruction()
    cam = pygeometry.Camera.create_perspective(1, 0, 0)
    cam.id = "c"
    rec.add_camera(cam)
    rig = R.random() < .4
    for k in range(R.randrange(1, 4)):
        pose = pygeometry.Pose(np.array([R.uniform(-2, 2) for _ in range(3)]))
        pose.set_origin(np.array([R.uniform(-200, 200), R.uniform(-200, 200), R.uniform(-20, 60)]))
        if rig:
            for nm, tr in (("l", [0, 0, 0]), ("r", [.7, .1, 0])):
                if nm not in rec.rig_cameras:
                    rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(np.array([0, .1, 0]) if nm == "r" else np.zeros(3), np.array(tr, dtype=float)), nm))
            i = rec.add_rig_instance(pymap.RigInstance("i%d" % k))
            rec.create_shot("l%d.jpg" % k, "c", pose, "l", "i%d" % k)
            rec.create_shot("r%d.jpg" % k, "c", pose, "r", "i%d" % k)
        else:
            rec.create_shot("s%d.jpg" % k, "c", pose)
    for k in range(R.randrange(0, 4)):
        p = rec.create_point(str(k), [R.uniform(-200, 200), R.uniform(-200, 200), R.uniform(-20, 60)])
        p.color = [1, 2, 3]
    cloud = [[R.uniform(-200, 200), R.uniform(-200, 200), R.uniform(-20, 60)] for _ in range(R.randrange(0, 4))]

    def exp(e):
        for k in rec.shots:
            open(path + "/images/" + k, "wb").close()
        data = DataSet(path)
        data.save_reference(refr)
        data.save_reconstruction([rec])
        normals = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 0]][:len(cloud)]
        with open(path + "/undistorted/depthmaps/merged.ply", "w") as f:
            io.point_cloud_to_ply(np.array(cloud), np.array(normals), np.array([[5, 6, 7]] * len(cloud)), np.array([9] * len(cloud)), f)
        flags = [R.random() < .6 for _ in range(4)]
        if not any(flags):
            flags = [True] * 4
        export_geocoords.run_dataset(data, proj, flags[0], flags[1], flags[2], flags[3], "")
        P = pyproj.Proj(proj)

        def direct(p):
            a, b, c = refr.to_lla(*p)
            return np.array(list(P(b, a)) + [c])

        def diff(got, p):
            return [q(v, 1000) for v in np.array(got, dtype=float) - direct(p)]
        shots = {k: s.pose.get_origin() for k, s in rec.shots.items()}
        if flags[0]:
            M = np.array([[float(v) for v in l.split()] for l in open(path + "/geocoords_transformation.txt").read().strip().split("\n")])
            e["shape"] = list(M.shape)
            for k, o in shots.items():
                e["diffs"].append(["matrix"] + diff((M @ np.append(o, 1))[:3], o))
        if flags[1]:
            ls = open(path + "/image_geocoords.tsv").read().split("\n")
            e["header"] = ls[0].split("\t")
            e["rows"] = [l.split("\t")[0] for l in ls[1:] if l]
            for l in ls[1:]:
                if l:
                    w = l.split("\t")
                    e["diffs"].append(["image"] + diff(w[1:], shots[w[0]]))
        if flags[2]:
            r2 = data.load_reconstruction("reconstruction.geocoords.json")[0]
            e["rshots"] = sorted(r2.shots)
            for k, s in r2.shots.items():
                e["diffs"].append(["shot"] + diff(s.pose.get_origin(), shots[k]))
                # the viewing direction points to the image of a point ahead
                a = rec.shots[k].pose
                o = np.array(a.get_origin())
                ahead = o + a.get_rotation_matrix()[2] * 50
                want = direct(ahead) - direct(o)
                e["views"].append([q(v, 1e6) for v in s.pose.get_rotation_matrix()[2] - want / np.linalg.norm(want)])
            e["rpoints"] = sorted(r2.points)
            for k, p in r2.points.items():
                e["diffs"].append(["point"] + diff(p.coordinates, rec.points[k].coordinates))
        if flags[3]:
            ls = open(path + "/undistorted/depthmaps/merged.geocoords.ply").read().split("\n")
            h = ls.index("end_header")
            e["nvert"] = [int(l.split()[-1]) for l in ls[:h] if l.startswith("element vertex")]
            body = [l.split() for l in ls[h + 1:] if l]
            e["cloud"] = [[int(v) for v in w[6:]] for w in body]
            for w, p in zip(body, cloud):
                e["diffs"].append(["cloud"] + diff([float(v) for v in w[:3]], p))
        e["flags"] = [int(f) for f in flags]
    case("export", exp, nshots=len(rec.shots), ids=sorted(rec.shots), pids=sorted(rec.points), ncloud=len(cloud), diffs=[], views=[], shape=[], header=[], rows=[], rshots=[], rpoints=[], nvert=[], cloud=[], flags=[])
    shutil.rmtree(path)
save_output(dict(cases=cases))
