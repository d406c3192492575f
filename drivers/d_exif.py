"""Metadata: EXIF/XMP tags of synthetic JPEG files, cameras made from them, the whole extract_metadata command."""
import copy
import io as pyio
import json
import os
import shutil
import struct
import yaml
import numpy as np
from PIL import Image
from vcommon import *
from opensfm import context, exif, geometry, pygeometry
from opensfm.actions import extract_metadata
from opensfm.dataset import DataSet

inp = load_input()
R = rng("exif")
cases = []
with open(context.SENSOR_DATA, encoding="utf-8") as f:
    SENSORS = {k.lower(): v for k, v in json.load(f).items()}
with open(context.CAMERA_CALIBRATION) as f:
    CALIB = yaml.safe_load(f)[0]
ASCII, BYTE, SHORT, LONG, RAT = 2, 1, 3, 4, 5
JPEGS = {}


def jpeg(w, h):
    if (w, h) not in JPEGS:
        b = pyio.BytesIO()
        Image.new("RGB", (w, h), (90, 120, 70)).save(b, "JPEG")
        JPEGS[(w, h)] = b.getvalue()
    return JPEGS[(w, h)]


def ifd(entries, base, nxt=b"\0\0\0\0"):
    """Entries [(tag, type, value)] -> bytes of an image file directory at offset base."""
    out, extra = struct.pack("<H", len(entries)), b""
    off = base + 2 + 12 * len(entries) + 4
    for tag, typ, val in sorted(entries):
        if typ == ASCII:
            data, n = val.encode("latin-1") + b"\0", len(val) + 1
        elif typ == RAT:
            data, n = b"".join(struct.pack("<II", *v) for v in val), len(val)
        elif typ == BYTE:
            data, n = bytes(val), len(val)
        elif typ == SHORT:
            data, n = b"".join(struct.pack("<H", v) for v in val), len(val)
        else:
            data, n = b"".join(struct.pack("<I", v) for v in val), len(val)
        if len(data) <= 4:
            out += struct.pack("<HHI", tag, typ, n) + data.ljust(4, b"\0")
        else:
            out += struct.pack("<HHII", tag, typ, n, off + len(extra))
            extra += data + b"\0" * (len(data) % 2)
    return out + nxt + extra


def tiff(main, ex, gps):
    main = list(main)
    if ex:
        main.append((0x8769, LONG, [0]))
    if gps:
        main.append((0x8825, LONG, [0]))
    n0 = len(ifd(main, 8))
    eo = 8 + n0
    eb = ifd(ex, eo) if ex else b""
    go = eo + len(eb)
    gb = ifd(gps, go) if gps else b""
    main = [(t, ty, [eo] if t == 0x8769 else [go] if t == 0x8825 else v) for t, ty, v in main]
    return b"II*\0\x08\0\0\0" + ifd(main, 8) + eb + gb


def app1(payload):
    return b"\xff\xe1" + struct.pack(">H", len(payload) + 2) + payload


def photo(size, main, ex, gps, xmp):
    j = jpeg(*size)
    seg = b""
    if main or ex or gps:
        seg += app1(b"Exif\0\0" + tiff(main, ex, gps))
    if xmp:
        seg += app1(b"http://ns.adobe.com/xap/1.0/\0" + xmp.encode())
    return j[:2] + seg + j[2:]


def xmp_packet(attrs, elems, many):
    d = "<rdf:Description rdf:about='' %s>%s</rdf:Description>" % (
        " ".join('%s="%s"' % a for a in attrs), "".join("<%s>%s</%s>" % (k, v, k) for k, v in elems))
    if many:
        d += "<rdf:Description rdf:about='' xmp:Rating='3'></rdf:Description>"
    return ('<?xpacket begin="" id="W5M0MpCehiHzreSzNTczkc9d"?><x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">'
            + d + '</rdf:RDF></x:xmpmeta><?xpacket end="w"?>')


def maybe(p, f):
    return f() if R.random() < p else []


def rat(n, d):
    return [n, d]


def angle(mx):
    k = R.random()
    if k < .4:
        return [rat(R.randrange(mx), 1), rat(R.randrange(60), 1), rat(R.randrange(60000), 1000)]
    if k < .6:
        return [rat(R.randrange(mx * 100), 100), rat(R.choice([0, R.randrange(60)]), 1), rat(0, 1)]
    if k < .8:
        return [rat(R.randrange(mx), 1), rat(R.randrange(6000), 100), rat(0, 1)]
    if k < .9:
        return [rat(R.choice([0, mx]), 1), rat(0, 1), rat(R.choice([0, 5]), 10)]
    return [rat(R.randrange(mx), 1), rat(R.randrange(60), 1), rat(R.randrange(6000), 0 if R.random() < .3 else 100)]


def date():
    return [R.choice([1970, 1999, 2000, 2012, 2020, 2023, 2037]), R.randrange(1, 13), R.choice([1, 15, 28, R.randrange(1, 29)]), R.randrange(24), R.randrange(60), R.randrange(60)]


def dstr(d):
    return "%04d:%02d:%02d %02d:%02d:%02d" % tuple(d)


MAKES = [("Canon", "Canon EOS 5D"), ("DJI", "FC300S"), ("GoPro", "HERO8 Black"), ("XIAOYI", "YI 4K"), ("SONY", "HDR-AS200V"), ("Acer", "CE-5330"), ("Nobody", "Thing 1"),
         ("Skydio", "2"), ("", ""), ("GoPro", "HERO3"), ("Drift", "Ghost S")]


def offset():
    return R.choice(["+00:00", "+02:00", "-03:00", "+05:30", "-03:30", "-00:30", "+00:45", "+12:45", "-11:00", "rubbish"])


def secs(t):
    s = int(np.floor(t))
    return [s, int(round((t - s) * 1000000))]


def tags():
    t = {}
    mk = R.choice(MAKES) if R.random() < .8 else None
    t["make"], t["model"] = ([mk[0]], [mk[1]]) if mk and mk[0] else ([], [])
    t["lens"] = maybe(.12, lambda: ["Sigma", "Art 35"])
    t["orient"] = maybe(.7, lambda: [R.choice([0, 1, 3, 6, 8])])
    t["real"] = R.choice([[8, 6], [6, 8], [10, 5]])
    t["exsize"] = maybe(.5, lambda: [R.choice([4000, 3000, 64]), R.choice([3000, 2000, 48])])
    t["imsize"] = maybe(.3, lambda: [R.choice([1000, 640]), R.choice([500, 480])])
    t["f35"] = maybe(.4, lambda: [R.choice([0, 18, 24, 28, 35, 50])])
    t["f"] = maybe(.6, lambda: rat(R.choice([50, 361, 1800, 0]), R.choice([10, 100])))
    t["unit"] = maybe(.5, lambda: [R.choice([1, 2, 3, 4, 5])])
    t["xres"] = maybe(.7, lambda: rat(R.choice([0, 3000, 8000, 1500, 400]), R.choice([1, 2])))
    if t["unit"] == [5] and t["xres"]:
        t["xres"] = rat(R.choice([0, 1]), R.choice([1, 5]))
    t["yres"] = maybe(.5, lambda: rat(R.choice([0, 3000, 2000]), 1))
    t["lat"] = maybe(.7, lambda: angle(90))
    t["latref"] = maybe(.8, lambda: [R.choice(["N", "S"])])
    t["lon"] = maybe(.95 if t["lat"] else .05, lambda: angle(180))
    t["lonref"] = maybe(.8, lambda: [R.choice(["E", "W"])])
    t["alt"] = maybe(.6, lambda: rat(R.choice([0, 12345, 99, 1000050, 3000000]), R.choice([1, 10, 100])))
    t["altref"] = maybe(.6, lambda: [R.choice([0, 1])])
    t["dop"] = maybe(.3, lambda: rat(R.randrange(1, 500), R.choice([10, 100, 0])))
    t["gdate"] = maybe(.3, lambda: date()[:3])
    t["gtime"] = maybe(.8 if t["gdate"] else .1, lambda: [rat(R.randrange(24), 1), rat(R.randrange(60), 1), rat(R.randrange(59000), R.choice([1000, 1000, 0]))])
    t["times"] = [maybe(.5, date) for _ in range(3)]
    t["subs"] = [maybe(.5, lambda: [R.choice(["5", "25", "000", "007", "123456"])]) for _ in range(3)]
    t["offs"] = [maybe(.5, lambda: [offset()]) for _ in range(3)]
    bad = R.random()
    t["badtime"] = R.randrange(3) + 1 if bad < .1 else 0
    # XMP
    x = R.random()
    t["dji"] = maybe(.25, lambda: [R.randrange(-90000000, 90000001), R.randrange(-179000000, 179000001)])
    t["djialt"] = maybe(.6 if t["dji"] else .1, lambda: [R.randrange(-50000, 20000000)])
    t["djisign"] = int(R.random() < .8)
    y = R.random()
    t["ypr"] = maybe(.5, lambda: [R.choice([0, 90, -90, 180, R.randrange(-180, 180)]), R.choice([0, 90, 30, R.randrange(-80, 80)]), R.choice([0, 0, 5, R.randrange(-40, 40)])])
    t["yprdji"] = maybe(.4, lambda: [R.choice([0, 90, -90, R.randrange(-180, 180)]), R.choice([-90, 0, -60, R.randrange(-90, 0)]), R.choice([0, 0, 5, -7])])
    t["proj"] = maybe(.25, lambda: [R.choice(["equirectangular", "spherical", "fisheye", "brown", "perspective"])])
    t["many"] = int(R.random() < .2)
    t["useexif"] = int(R.random() < .7)
    return t


def build(t):
    m, e, g = [], [], []
    if t["make"]:
        m += [(0x10F, ASCII, t["make"][0]), (0x110, ASCII, t["model"][0])]
    if t["lens"]:
        e += [(0xA433, ASCII, t["lens"][0]), (0xA434, ASCII, t["lens"][1])]
    if t["orient"]:
        m.append((0x112, SHORT, t["orient"]))
    if t["imsize"]:
        m += [(0x100, LONG, t["imsize"][:1]), (0x101, LONG, t["imsize"][1:])]
    if t["exsize"]:
        e += [(0xA002, LONG, t["exsize"][:1]), (0xA003, LONG, t["exsize"][1:])]
    for k, tag in (("f35", 0xA405), ("unit", 0xA210)):
        if t[k]:
            e.append((tag, SHORT, t[k]))
    for k, tag in (("f", 0x920A), ("xres", 0xA20E), ("yres", 0xA20F)):
        if t[k]:
            e.append((tag, RAT, [t[k]]))
    for k, tag in (("lat", 2), ("lon", 4)):
        if t[k]:
            g.append((tag, RAT, t[k]))
    for k, tag in (("latref", 1), ("lonref", 3)):
        if t[k]:
            g.append((tag, ASCII, t[k][0]))
    if t["alt"]:
        g.append((6, RAT, [t["alt"]]))
    if t["altref"]:
        g.append((5, BYTE, t["altref"]))
    if t["dop"]:
        g.append((11, RAT, [t["dop"]]))
    if t["gdate"]:
        g.append((29, ASCII, "%04d:%02d:%02d" % tuple(t["gdate"])))
    if t["gtime"]:
        g.append((7, RAT, t["gtime"]))
    for k, (tag, where) in enumerate(((0x9003, e), (0x9004, e), (0x132, m))):
        if t["times"][k]:
            where.append((tag, ASCII, dstr(t["times"][k]) if t["badtime"] != k + 1 else "0000:00:00 00:00:00"))
    for k, tag in enumerate((0x9291, 0x9292)):
        if t["subs"][k]:
            e.append((tag, ASCII, t["subs"][k][0]))
    t["subs"][2] = []      # the sub-second tag of the third time lives in another directory
    for k, tag in enumerate((0x9011, 0x9012, 0x9010)):
        if t["offs"][k]:
            e.append((tag, ASCII, t["offs"][k][0]))
    attrs, elems = [], []
    if t["dji"]:
        f = "%+.6f" if t["djisign"] else "%.6f"
        attrs += [("drone-dji:Latitude", f % (t["dji"][0] / 1e6)), ("drone-dji:Longitude", f % (t["dji"][1] / 1e6))]
    if t["djialt"]:
        attrs.append(("drone-dji:AbsoluteAltitude", "%+.3f" % (t["djialt"][0] / 1e3)))
    if t["ypr"]:
        attrs += [("Camera:" + k, str(v)) for k, v in zip(("Yaw", "Pitch", "Roll"), t["ypr"])]
    if t["yprdji"]:
        attrs += [("drone-dji:Gimbal%sDegree" % k, "%+.2f" % v) for k, v in zip(("Yaw", "Pitch", "Roll"), t["yprdji"])]
    if t["proj"]:
        elems.append(("GPano:ProjectionType", t["proj"][0]))
    elif R.random() < .15:
        elems.append(("GPano:UsePanoramaViewer", "True"))
    xmp = xmp_packet(attrs, elems, t["many"]) if attrs or elems else ""
    t["xmp"] = int(bool(xmp))
    return photo(t["real"], m, e, g, xmp)


def offmin(o):
    """Minutes east of Greenwich of a time zone string, [] if it is not one."""
    if not o or o[0][0] not in "+-":
        return []
    s = 1 if o[0][0] == "+" else -1
    return [s * (60 * int(o[0][1:3]) + int(o[0][4:6]))]


def micro(s):
    return [int((s[0] + "000000")[:6])] if s else [0]


def exif_event(t, d):
    make = (t["lens"][0] if t["lens"] else t["make"][0] if t["make"] else "unknown")
    model = (t["lens"][1] if t["lens"] else t["model"][0] if t["model"] else "unknown")
    name = (make.strip() + " " + model.replace(make, "").strip()).strip().lower() if make != "unknown" else "unknown unknown"
    g = d.get("gps", {})
    tt = {k: v for k, v in t.items() if k not in ("offs", "subs")}
    o = d.get("opk")
    return dict(op="exif", exc="", t=tt, offs=[offmin(x) for x in t["offs"]], subs=[micro(x) for x in t["subs"]],
                sensor=[q(SENSORS[name], 1000)] if name in SENSORS else [],
                size=[int(d["width"]), int(d["height"])], make=d["make"], model=d["model"], wantmake=make, wantmodel=model, orient=d["orientation"],
                ratio=q(d["focal_ratio"]), proj=d["projection_type"], time=secs(d["capture_time"]),
                lat=[q(g["latitude"], 3600000)] if "latitude" in g else [], lon=[q(g["longitude"], 3600000)] if "longitude" in g else [],
                alt=[q(g["altitude"], 1000)] if "altitude" in g else [], dop=[q(g["dop"], 1000)] if "dop" in g else [],
                djimas=[int(round(v * 3.6)) for v in t["dji"]],
                opk=[int(round(np.radians(o[k]) * 1e6)) for k in ("omega", "phi", "kappa")] if o else [],
                yprrad=[int(round(np.radians(v) * 1e6)) for v in t["ypr"]], djirad=[int(round(np.radians(v) * 1e6)) for v in t["yprdji"]],
                id=d["camera"], idtoken=str(float(d["focal_ratio"]))[:6],
                idmake=make.strip().lower(), idmodel=(model.replace(make, "") if make != "unknown" else model).strip().lower())


for n in range(inp["single"]):
    t = tags()
    progress(t)
    data = build(t)
    f = pyio.BytesIO(data)
    f.name = "x.jpg"
    asked = []

    def size():
        return t["real"][1], t["real"][0]
    try:
        e = exif_event(t, exif.extract_exif_from_file(f, size, bool(t["useexif"])))
    except Exception as x:
        e = dict(op="exif", exc=exc_name(x) + ": " + str(x)[:200], t={k: v for k, v in t.items()})
    cases.append(dict(kind="exif", events=[e]))

# ------------------------------------------------- cameras from metadata
PT = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial", "spherical", "equirectangular", "Perspective", "BROWN", ""]
ROWS = []
for mk, models in CALIB.items():
    for kind, val in models.items():
        if kind == "ALL":
            ROWS.append([mk, "ALL", "", [[k, q(v)] for k, v in val.items() if k != "projection_type"], val.get("projection_type", "")])
        else:
            for k2, v2 in val.items():
                ROWS.append([mk, kind, str(k2), [[k, q(v)] for k, v in v2.items() if k != "projection_type"], v2.get("projection_type", "")])


class D:
    config = None


def camera_row(c):
    return dict(type=c.projection_type, id=c.id, size=[c.width, c.height],
                params=[[str(k).split(".")[-1], q(v)] for k, v in c.get_parameters_map().items()])


for n in range(inp["cameras"]):
    evs = []
    dflt = R.choice([.85, .7, .85])
    dd = D()
    dd.config = dict(default_focal_prior=dflt)
    for k in range(R.randrange(1, 6)):
        mk = R.choice(MAKES + [("garmin", "VirbXE"), (" DJI ", " ZenmuseP1 "), ("SONY", "other")])
        pt = R.choice(PT)
        md = dict(make=mk[0] or "unknown", model=(mk[1] or "unknown"), width=R.choice([10, 4000]), height=R.choice([10, 3000]),
                  focal_ratio=R.choice([0, 0.0, .5, .8611, 1.2, .4166667, .5555]), camera="cam%d" % k)
        if pt:
            md["projection_type"] = pt
        if R.random() < .15:
            md["focal_x"] = R.choice([.77, .91])
        if R.random() < .15:
            md["c_x"], md["c_y"] = .01, -.02
        e = dict(op="camera", exc="", pt=pt.lower() or "perspective", make=md["make"].strip().lower(), model=md["model"].strip().lower(), ratio=q(md["focal_ratio"]),
                 fx=[q(md["focal_x"])] if "focal_x" in md else [], c=[q(md["c_x"]), q(md["c_y"])] if "c_x" in md else [0, 0],
                 mm35=str(int(round(md["focal_ratio"] * 36.0))), dflt=q(dflt), rows=[r for r in ROWS if r[0] == md["make"].strip().lower()],
                 wantid=md["camera"], wantsize=[md["width"], md["height"]], got=[])
        try:
            e["got"] = [camera_row(exif.camera_from_exif_metadata(md, dd))]
        except Exception as x:
            e["exc"] = exc_name(x) + ": " + str(x)[:200]
        evs.append(e)
    cases.append(dict(kind="camera", events=evs))

# ------------------------------------------------- the whole command
for n in range(inp["runs"]):
    path = os.path.join(SCRATCH, "exif%d" % n)
    os.makedirs(path + "/images")
    ims = ["%d.jpg" % k for k in range(R.randrange(1, 6))]
    T = {}
    shared = tags()
    for im in ims:
        T[im] = copy.deepcopy(shared) if R.random() < .4 else tags()
        with open(path + "/images/" + im, "wb") as f:
            f.write(build(T[im]))
    cfg = dict(use_exif_size=R.random() < .7, unknown_camera_models_are_different=R.random() < .4)
    dpt = R.choice([None, None, "brown", "fisheye", "spherical"])
    if dpt:
        cfg["default_projection_type"] = dpt
    with open(path + "/config.yaml", "w") as f:
        f.write(json.dumps(cfg))
    over = {im: R.choice([{"orientation": 3}, {"capture_time": 5.0}, {"gps": {"latitude": 1.0, "longitude": 2.0}}]) for im in ims if R.random() < .2}
    if over:
        with open(path + "/exif_overrides.json", "w") as f:
            f.write(json.dumps(over))
    data = DataSet(path)
    pre = {}
    for im in ims:
        if R.random() < .2:
            pre[im] = dict(make="unknown", model="unknown", camera="given " + R.choice("ab"), width=100, height=80, projection_type="perspective", focal_ratio=.6, orientation=1,
                           capture_time=77.0, gps={})
            data.save_exif(im, pre[im])
    ov = R.choice(["", "", "all", "some"])
    if ov:
        c = pygeometry.Camera.create_perspective(1.2345, .01, .02)
        c.width, c.height, c.id = 50, 40, "all"
        data.save_camera_models_overrides({"all": c} if ov == "all" else {"new camera": c})
        if ov == "some":
            some = R.choice(["new camera", "given a"])
            c.id = some
            data.save_camera_models_overrides({some: c})
    e = dict(op="run", exc="", ims=ims, pre=sorted(pre), over=[[k, json.dumps(v, sort_keys=True)] for k, v in sorted(over.items())], ov=ov,
             ovid=some if ov == "some" else "", ids=[], cams=[], preok=1, overok=1, unknown=[], models=[], dpt=dpt or "", projs=[], known=[], diff=int(bool(cfg["unknown_camera_models_are_different"])))
    try:
        extract_metadata.run_dataset(data)
        data = DataSet(path)
        ex = {im: data.load_exif(im) for im in ims}
        e["ids"] = [ex[im]["camera"] for im in ims]
        e["preok"] = int(all(ex[im] == pre[im] for im in pre))
        e["overok"] = int(all(ex[im].get(k) == v for im in over if im not in pre for k, v in over[im].items()))
        cams = data.load_camera_models()
        e["cams"] = [[k, c.id, "over" if abs(q(c.get_parameters_map()[[x for x in c.get_parameters_map() if str(x).endswith("focal")][0]]) - 1234500) <= 1 and c.width == 50 else "exif"]
                     if "spherical" not in c.projection_type and "equirect" not in c.projection_type else [k, c.id, "exif"] for k, c in cams.items()]
        # metadata extracted image by image is the same, whatever the other images are
        fresh = [im for im in ims if im not in pre]
        e["projs"] = [ex[im]["projection_type"] for im in fresh]
        e["models"] = [ex[im]["model"] for im in fresh]
        e["fresh"] = fresh
        e["nomodel"] = [int(not T[im]["model"] and not T[im]["lens"]) for im in fresh]
        evs = []
        for im in fresh:
            T[im]["useexif"] = int(cfg["use_exif_size"])
            if im not in over and not dpt and not (e["diff"] and not T[im]["model"] and not T[im]["lens"]):
                evs.append(exif_event(T[im], ex[im]))
    except Exception as x:
        e["exc"] = exc_name(x) + ": " + str(x)[:300]
        e["fresh"], e["nomodel"], evs = [], [], []
    cases.append(dict(kind="run", events=[e] + evs))
    shutil.rmtree(path)
save_output(dict(cases=cases))
