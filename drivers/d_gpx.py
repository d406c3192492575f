"""Positions from GPS tracks, written to images."""
import contextlib
import datetime
import math
import os
import runpy
import shutil
import sys
import time
import types as pytypes
import xml.etree.ElementTree as ET
from fractions import Fraction
from vcommon import *

# Stand-ins of the two libraries that write and read the files.
STORE, WRITES = {}, {}


class Tag:
    def __init__(self, value):
        self.value = value


class ImageMetadata:
    def __init__(self, filename):
        self.name = os.path.abspath(filename)

    def read(self):
        if not os.path.exists(self.name):
            raise IOError(self.name)
        self.tags = dict(STORE.get(self.name, {}))

    def __getitem__(self, k):
        return Tag(self.tags[k])

    def __setitem__(self, k, v):
        self.tags[k] = v

    def write(self):
        STORE[self.name] = dict(self.tags)
        WRITES[self.name] = WRITES.get(self.name, 0) + 1


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def parse(f):
    """What gpxpy.parse gives, for the files of this driver."""
    root = ET.parse(f).getroot()
    tag = lambda e: e.tag.split("}")[-1]
    kids = lambda e, n: [c for c in e if tag(c) == n]
    pts = lambda s: [Obj(time=datetime.datetime.fromisoformat(kids(p, "time")[0].text.rstrip("Z")),
                         latitude=float(p.get("lat")), longitude=float(p.get("lon")),
                         elevation=float(kids(p, "ele")[0].text) if kids(p, "ele") else None) for p in kids(s, "trkpt")]
    return Obj(tracks=[Obj(segments=[Obj(points=pts(s)) for s in kids(t, "trkseg")]) for t in kids(root, "trk")])


px, pu, gp = pytypes.ModuleType("pyexiv2"), pytypes.ModuleType("pyexiv2.utils"), pytypes.ModuleType("gpxpy")
px.ImageMetadata, px.utils = ImageMetadata, pu
pu.make_fraction = lambda n, d=1: Fraction(n, d)
gp.parse = parse
sys.modules.update({"pyexiv2": px, "pyexiv2.utils": pu, "gpxpy": gp})

import cv2
import numpy as np
from opensfm import geo, geotag_from_gpx as G, pygeometry, types, video
from opensfm.dataset import DataSet

os.environ["TZ"] = "UTC"
time.tzset()
inp = load_input()
R = rng("gpx")
cases = []
REPO = os.environ.get("VERIF_REPO", "/repo")
DIR = os.path.join(SCRATCH, "gpx")
os.makedirs(DIR, exist_ok=True)
T0 = datetime.datetime(2019, 5, 17, 23, 40, 0)
UNKNOWN = 2000000000
KEEP = {"Exif.Image.ImageDescription": "kept", "Exif.Image.Orientation": 9}


def case(kind, fn, **k):
    e = dict(op=kind, exc="")
    e.update(k)
    progress(e)
    try:
        with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
            fn(e)
    except (Exception, SystemExit) as x:
        e["exc"] = exc_name(x)
    cases.append(dict(kind=kind, events=[e]))


def at(t):
    return T0 + datetime.timedelta(seconds=t)


def ms(d):
    return int(round((d - T0).total_seconds() * 1000))


def micro(lon):
    return int(round(lon * 1e6))


def norm(lon):
    """Millionths of a degree in (-180, 180]."""
    lon = (lon + 180000000) % 360000000 - 180000000
    return lon if lon != -180000000 or R.random() < .5 else 180000000


def track(n, long=False):
    """Points <<s, lat, lon, ele>> in millionths."""
    span = R.choice([200000, 900000]) if long else R.choice([5, 300, 3000, 19000])
    lat = R.choice([0, 0, R.randint(-78, 78) * 1000000, R.randint(-78000000, 78000000)])
    lon = R.choice([0, 180000000, -179999000, R.randint(-179, 179) * 1000000, R.randint(-180000000, 180000000)])
    t, out, known = 0, [], R.choice([1, 0, .6, 1])
    for _ in range(n):
        out.append([t, lat, norm(lon), R.choice([0, R.randint(-40000, 900000)]) if R.random() < known else UNKNOWN])
        t += R.choice([1, 1, 2, 7, 60, 500]) if R.random() < .93 else 0
        lat += R.choice([0, 1, 1]) * R.randint(-span, span)
        lon += R.choice([0, 1, 1]) * R.randint(-span, span)
    if out[-1][0] == out[0][0]:
        out[-1][0] += 3
    return out


def points(p):
    return [(at(t), a / 1e6, o / 1e6, None if h == UNKNOWN else h / 1000.) for t, a, o, h in p]


def when(p):
    return R.choice([R.choice(p)[0], R.randint(p[0][0] - 1, p[-1][0] + 1), R.randint(p[0][0], p[-1][0])])


def interp():
    p = track(R.choice([2, 2, 3, 5, 12]), R.random() < .3)

    def fn(e):
        lat, lon, b, h = G.interpolate_lat_lon(points(p), at(e["t"]))
        e["got"] = [micro(lat), micro(lon), micro(b), UNKNOWN if h is None else q(h, 1000)]
    case("interp", fn, pts=p, t=when(p), got=[])


def name(i):
    f = os.path.join(DIR, "i%d.jpg" % i)
    with open(f, "w") as h:
        h.write("image %d" % R.randint(0, 10 ** 9))
    return f


def dms(v, ref):
    d, m, s = v
    assert d.denominator == 1 and m.denominator == 1
    return dict(d=int(d), m=int(m), s=int(round(s * 1000000)), ref=ref)


def written(f):
    g = STORE[os.path.abspath(f)]
    P = "Exif.GPSInfo.GPS"
    h = g.get(P + "Altitude")
    t = g.get("Exif.Photo.DateTimeOriginal")
    return dict(lat=dms(g[P + "Latitude"], g[P + "LatitudeRef"]), lon=dms(g[P + "Longitude"], g[P + "LongitudeRef"]),
                bearing=micro(float(g[P + "ImgDirection"])), north=g[P + "ImgDirectionRef"],
                ele=UNKNOWN if h is None else int(round(h * 1000)), below=g.get(P + "AltitudeRef", ""),
                orientation=g.get("Exif.Image.Orientation", 0), text=str(g.get("Exif.Image.ImageDescription", "")),
                time=-1 if t is None else int((t - T0).total_seconds()))


NOTHING = dict(lat=dict(d=0, m=0, s=0, ref=""), lon=dict(d=0, m=0, s=0, ref=""), bearing=0, north="", ele=0, below="", orientation=0, text="", time=0)


def tag(i):
    p = track(R.choice([2, 3, 8]), R.random() < .2)
    f = name(i)
    offset = R.choice([0, 0, 3, -2, 3600])
    t = when(p) + offset
    stamp, text, orient = R.random() < .5, R.choice([None, "", "a text"]), R.choice([1, 3, 6, 8])
    STORE[f] = dict(KEEP, **{"Exif.Photo.DateTimeOriginal": at(t if not stamp else t + R.randint(1, 99))})
    before = dict(STORE[f])
    WRITES.pop(f, None)

    def fn(e):
        k = {}
        if stamp:
            k["timestamp"] = at(t)
        if text is not None:
            k["image_description"] = text
        if orient != 1 or R.random() < .5:
            k["orientation"] = orient
        G.add_exif_using_timestamp(f, points(p), offset, **k)
        e["writes"] = WRITES.get(f, 0)
        if e["writes"]:
            e["w"] = written(f)
        elif STORE[f] != before:
            e["writes"] = -1
    case("tag", fn, pts=p, t=t, offset=offset, orientation=orient, text="kept" if text is None else text, writes=0, w=NOTHING)


def angle(lim):
    return R.choice([0, R.randint(-lim, lim) * 1000000, R.randint(-lim * 1000000, lim * 1000000), R.randint(-999999, 999999),
                     R.randint(-lim * 60, lim * 60) * 1000000 // 60])


def given(i):
    f, new = name(i), R.random() < .5
    g = os.path.join(DIR, "new%d.jpg" % i) if new else f
    body = open(f).read()
    STORE[f] = dict(KEEP)
    if new:
        STORE[g] = dict(KEEP)
    lla = [angle(89), angle(179), R.choice([UNKNOWN, 0, R.randint(-90000, 900000)])]
    bearing, drop = R.choice([0, R.randint(0, 359999999)]), R.random() < .6
    for x in (f, g):
        WRITES.pop(x, None)

    def fn(e):
        k = {}
        if new:
            k["updated_filename"] = g
        if not drop:
            k["remove_image_description"] = False
        G.add_gps_to_exif(f, lla[0] / 1e6, lla[1] / 1e6, bearing / 1e6, None if lla[2] == UNKNOWN else lla[2] / 1000., **k)
        ws = [x for x in {f, g} if WRITES.get(x)]
        e["file"] = "+".join(os.path.basename(x) for x in ws)
        e["writes"] = sum(WRITES[x] for x in ws)
        e["intact"] = int(open(f).read() == body and open(g).read() == body and (not new or STORE[f] == KEEP))
        e["w"] = written(g)
    case("given", fn, lla=lla, bearing=bearing, tol=4, text="[]" if drop else "kept", wantfile=os.path.basename(g), file="", writes=0, intact=0, w=NOTHING)


def resampled(p, dx, dt, e):
    """p: points (datetime, lat, lon, ele or None)."""
    rel = lambda s: [int(round((s[0] - p[0][0]).total_seconds() * 1000)), int(round((s[1] - p[0][1]) * 1e8)),
                     int(round(((s[2] - p[0][2] + 180) % 360 - 180) * 1e8)), UNKNOWN if s[3] is None else int(round(s[3] * 100))]
    e["pts"] = [rel(s) for s in p]
    got = G.sample_gpx(p, dx, dt)
    e["got"] = [rel(s) for s in got]
    e["range"] = int(all(abs(s[2]) <= 180 for s in got))
    assert e["range"]
    return got


def walk(n, speed):
    """A track in metres and seconds."""
    x, y, t, out, a = 0., 0., 0., [], R.uniform(0, 6.3)
    known = R.choice([1, 1, 0, .5])
    for _ in range(n):
        out.append([t, x, y, R.uniform(0, 2) if R.random() < known else None])
        d = R.choice([1, 1, 2, .5, 5, 20])
        a += R.choice([0, R.gauss(0, .5), math.pi])
        v = R.choice([0, speed * R.random(), speed])
        x, y, t = x + v * d * math.cos(a), y + v * d * math.sin(a), t + d
    return out


def place(w):
    """The walk on the Earth."""
    lat, lon = R.choice([0., R.uniform(-70, 70)]), R.choice([180., 179.99995, -179.9999, 0., R.uniform(-180, 180)])
    c = math.cos(math.radians(lat))
    wrap = lambda o: (o + 180) % 360 - 180
    return math.radians(lat), [(at(t), lat + y / 111132., wrap(lon + x / 111320. / c), h) for t, x, y, h in w]


def sample(w, dx, dt):
    lat, p = place(w)

    def fn(e):
        resampled(p, dx, dt, e)
    # the step of places is that of a plane, up to the curvature of the track
    case("sample", fn, by="place" if dt is None else "time", step=int(round((dx if dt is None else dt) * 1000)), lat=q(lat),
         near=160, pts=[], got=[])


def read(i):
    zone = R.choice([0, 5, -3, 9])
    f = os.path.join(DIR, "t.gpx")
    segs, want, t = [], [], 0
    for _ in range(R.choice([1, 2, 3])):
        seg = []
        for _ in range(R.choice([0, 1, 4])):
            t += R.choice([1, 30, 2000])
            seg.append([t * 1000, R.randint(-89000000, 89000000), R.randint(-180000000, 180000000), R.choice([UNKNOWN, R.randint(-5000, 50000)])])
        segs.append(seg)
    R.shuffle(segs)
    want = [x for s in segs for x in s]
    body = ""
    for k, s in enumerate(segs):
        if k == 0 or R.random() < .5:
            body += ("</trk>" if k else "") + "<trk>"
        body += "<trkseg>" + "".join('<trkpt lat="%.6f" lon="%.6f">%s<time>%sZ</time></trkpt>' % (
            x[1] / 1e6, x[2] / 1e6, "" if x[3] == UNKNOWN else "<ele>%.2f</ele>" % (x[3] / 100.), at(x[0] / 1000).isoformat()) for x in s) + "</trkseg>"
    with open(f, "w") as h:
        h.write("<gpx>" + body + "</trk></gpx>")
    local = R.random() < .3

    def fn(e):
        os.environ["TZ"] = "XXX%+d" % -zone
        time.tzset()
        try:
            got = G.get_lat_lon_time(f, "local") if local else G.get_lat_lon_time(f)
        finally:
            os.environ["TZ"] = "UTC"
            time.tzset()
        e["got"] = [[ms(x[0]), micro(x[1]), micro(x[2]), UNKNOWN if x[3] is None else int(round(x[3] * 100))] for x in got]
    case("read", fn, want=want, got=[], zone=0 if local else zone * 3600000)
    return f


class Capture:
    length = 0

    def __init__(self, f):
        self.pos = 0

    def set(self, prop, v):
        assert prop == cv2.CAP_PROP_POS_MSEC
        self.pos = v

    def read(self):
        return (True, np.full((4, 6, 3), self.pos)) if self.pos < self.length else (False, None)

    def release(self):
        pass


FRAMES = {}


def imwrite(f, a):
    FRAMES[os.path.abspath(f)] = int(a[0, 0, 0])
    open(f, "w").close()
    STORE[os.path.abspath(f)] = {}
    return True


TOOL = os.path.join(DIR, "bin")
os.makedirs(TOOL, exist_ok=True)
with open(os.path.join(TOOL, "exiftool"), "w") as f:   # prints the file of the tag asked
    f.write('#!/bin/sh\ncat "%s/tag$1"\n' % TOOL)
os.chmod(os.path.join(TOOL, "exiftool"), 0o755)
os.environ["PATH"] = TOOL + ":" + os.environ.get("PATH", "/usr/bin:/bin")


def exiftool(**k):
    for n, v in k.items():
        with open(os.path.join(TOOL, "tag-" + n), "w") as f:
            f.write(v)


cv2.VideoCapture, cv2.imwrite = Capture, imwrite


def movie(i):
    lat, p = place(walk(R.choice([3, 6, 10]), R.choice([3., 12.])))
    out = os.path.join(DIR, "v%d" % i)
    dx, dt = R.choice([5., 17.]), R.choice([None, 1.5, 4.])
    start = R.choice([0, 0, -2, 3])
    how = R.choice(["given", "file", "none"])
    Capture.length = R.choice([10 ** 9, 10 ** 9, 20000])
    rot, ori = R.choice([("", 1), ("0\n", 1), ("90", 6), ("180", 3), ("270", 8)])
    exiftool(Rotation=rot, CreateDate=at(start).strftime("%Y:%m:%d %H:%M:%S") if how == "file" else "")
    gpx = os.path.join(DIR, "v.gpx")
    with open(gpx, "w") as f:
        f.write("<gpx><trk><trkseg>" + "".join('<trkpt lat="%r" lon="%r">%s<time>%sZ</time></trkpt>' % (
            x[1], x[2], "" if x[3] is None else "<ele>%r</ele>" % x[3], x[0].isoformat()) for x in p) + "</trkseg></trk></gpx>")
    if how == "none":
        start = 0

    def fn(e):
        keys = G.sample_gpx(p, dx, dt)
        e["keys"] = [[ms(k[0])] for k in keys]
        files = video.import_video_with_gpx("a.mp4", gpx, out, dx, dt, at(start).isoformat() if how == "given" else None)
        for f in files:
            f = os.path.abspath(f)
            d = datetime.datetime.strptime(os.path.basename(f)[:-4] + "000", "%Y_%m_%d_%H_%M_%S_%f")
            g = STORE[f]
            e["files"].append(dict(frame=FRAMES[f], name=ms(d), tag=ms(g["Exif.Photo.DateTimeOriginal"]) if "Exif.GPSInfo.GPSLatitude" in g else -1,
                                   orientation=g.get("Exif.Image.Orientation", 0)))
    case("video", fn, start=start * 1000, length=Capture.length, last=ms(p[-1][0]), orientation=ori, keys=[], files=[])
    shutil.rmtree(out, ignore_errors=True)


def turned(rot):
    exiftool(Rotation=rot)

    def fn(e):
        e["got"] = video.video_orientation("a.mp4")
    case("turned", fn, rot=rot, got=0)


def update(i):
    """The script that writes the positions of a reconstruction."""
    path = os.path.join(DIR, "d%d" % i)
    os.makedirs(os.path.join(path, "images"))
    ref = geo.TopocentricConverter(R.uniform(-60, 60), R.choice([179.9999, R.uniform(-179, 179)]), 5.)
    recs, want = [], {}
    for r in range(R.choice([1, 2])):
        rec = types.Reconstruction()
        cam = pygeometry.Camera.create_perspective(.8, 0, 0)
        cam.id = "c"
        rec.add_camera(cam)
        for k in range(R.choice([1, 2])):
            im = "r%dk%d.jpg" % (r, k)
            lla = [ref.lat + R.uniform(-.01, .01), ref.lon + R.uniform(-.01, .01), R.uniform(-20, 300)]
            b = R.choice([0., R.uniform(0, 360)])
            z = np.array([math.sin(math.radians(b)), math.cos(math.radians(b)), R.uniform(-1, .3)])
            z /= np.linalg.norm(z)
            x = np.cross(z, [0, 0, 1.])
            x /= np.linalg.norm(x)
            pose = pygeometry.Pose()
            pose.set_rotation_matrix(np.array([x, np.cross(z, x), z]))
            pose.set_origin(np.array(ref.to_topocentric(*lla)))
            rec.create_shot(im, "c", pose)
            want[im] = (lla, b)
            f = os.path.join(path, "images", im)
            with open(f, "w") as h:
                h.write(im)
            STORE[f] = dict(KEEP)
        recs.append(rec)
    data = DataSet(path)
    data.save_reference(ref)
    other = R.random() < .4
    data.save_reconstruction(recs, "other.json" if other else None)
    over = R.random() < .4
    argv = ["update_geotag", path] + (["--overwrite_originals"] if over else []) + (["--reconstruction_file", os.path.join(path, "other.json")] if other else [])
    WRITES.clear()
    done, fail = {}, []

    def run():
        old, sys.argv, sp = sys.argv, argv, list(sys.path)
        try:
            with open(os.devnull, "w") as f, contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
                runpy.run_path(os.path.join(REPO, "bin", "update_geotag"), run_name="__main__")
        except (Exception, SystemExit) as x:
            fail.append(exc_name(x))
        finally:
            sys.argv, sys.path[:] = old, sp
    run()
    for im, (lla, b) in want.items():
        f = os.path.join(path, "images", im)
        g = f if over else os.path.join(path, "images_updated_geotag", im)

        def fn(e):
            if fail:
                e["exc"] = fail[0]
                return
            ws = [x for x in WRITES if os.path.basename(x) == im]
            e["file"] = "+".join(os.path.relpath(x, path) for x in ws)
            e["writes"] = sum(WRITES[x] for x in ws)
            e["intact"] = int(open(f).read() == im and open(g).read() == im and (over or STORE[f] == KEEP))
            e["w"] = written(g)
        case("given", fn, lla=[micro(lla[0]), micro(lla[1]), int(lla[2] * 1000)], bearing=micro(b), tol=6,
             text="[]", wantfile=os.path.relpath(g, path), file="", writes=0, intact=0, w=NOTHING)
    shutil.rmtree(path)


def main():
    for _ in range(inp["interp"]):
        interp()
    for i in range(inp["tag"]):
        tag(i)
        given(i)
    for b in inp["walks"]:
        u = R.choice([3., 10.])
        w = [[2. * k + 3 * (k > 2), u * x * .6, u * x * .8, 5.] for k, x in enumerate(b["track"])]
        sample(w, u * b["dx"], None)
        if b["dx"]:
            sample(w, 5., float(b["dx"]))
    for _ in range(inp["sample"]):
        w = walk(R.choice([2, 4, 10, 20]), R.choice([1., 15., 30.]))
        sample(w, R.choice([0., 5., 7.3, 20., 100.]), None)
        sample(w, 5., R.choice([.5, 1., 2.7, 30.]))
    for i in range(inp["read"]):
        read(i)
    for i in range(inp["video"]):
        movie(i)
    for r in ["", "0", "90", "180", "270", "45", "360", "-90"]:
        turned(r)
    for i in range(inp["update"]):
        update(i)


main()
save_output(dict(cases=cases))
