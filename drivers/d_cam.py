"""Camera models: parameters, projection, bearings, pixel conversions, shots, camera mappings."""
import itertools
import numpy as np
from vcommon import *
from opensfm import features, pygeometry, types

inp = load_input()
R = rng("cam")
E6 = 1000000
TYPES = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial", "dual", "spherical"]
DORD = ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"]
NK = dict(perspective=2, fisheye=2, dual=2, brown=3, fisheye_opencv=4, fisheye62=6, fisheye624=6, radial=2, simple_radial=1, spherical=0)
OWN = {t: ["k%d" % (i + 1) for i in range(NK[t])] + (["p1", "p2"] if t in ("brown", "fisheye62", "fisheye624") else []) +
       (["s0", "s1", "s2", "s3"] if t == "fisheye624" else []) for t in TYPES}
FULL = {"brown", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial"}
C = pygeometry.Camera
PAR = pygeometry.CameraParameters


def i6(v):
    return [q(x, E6) for x in np.asarray(v, dtype=float).ravel()]


def f(n):
    return n / E6


def params(t, strong):
    """integers in millionths; strong: large distortions, else ones whose inverse is well defined"""
    P = dict(focal=E6, aspect_ratio=E6, cx=0, cy=0, transition=500000, **{k: 0 for k in DORD})
    if t == "spherical":
        return P
    u = lambda s: int(R.uniform(-s, s) * E6)
    P["focal"] = R.choice([E6, 850000, int(R.uniform(.3, 2.0) * E6)])
    if t in FULL:
        P["aspect_ratio"] = R.choice([E6, int(R.uniform(.7, 1.4) * E6)])
        P["cx"], P["cy"] = R.choice([(0, 0), (u(.1), u(.1))])
    if t == "dual":
        P["transition"] = R.choice([0, E6, int(R.random() * E6)])
    amp = dict(k1=.08, k2=.03, k3=.015, k4=.008, k5=.004, k6=.002, p1=.02, p2=.02, s0=.015, s1=.01, s2=.015, s3=.01)
    for k in OWN[t]:
        if R.random() < .85:
            P[k] = u(amp[k] * (4 if strong else 1))
    return P


def create(t, P):
    d = [f(P[k]) for k in OWN[t]]
    pp = np.array([f(P["cx"]), f(P["cy"])])
    a, fo = f(P["aspect_ratio"]), f(P["focal"])
    if t in ("perspective", "fisheye"):
        return getattr(C, "create_" + t)(fo, *d)
    if t == "dual":
        return C.create_dual(f(P["transition"]), fo, *d)
    if t == "spherical":
        return C.create_spherical()
    if t == "simple_radial":
        return C.create_simple_radial(fo, a, pp, d[0])
    return getattr(C, "create_" + t)(fo, a, pp, np.array(d))


def reads(c):
    m = [[str(k).split(".")[-1], q(v, E6)] for k, v in c.get_parameters_map().items()]
    tv = [[str(k).split(".")[-1], q(v, E6)] for k, v in zip(c.get_parameters_types(), c.get_parameters_values())]
    attrs = [x for x in tv if x[0] != "none"]
    for n in ["focal", "aspect_ratio", "transition"] + DORD:
        try:
            attrs.append([n, q(getattr(c, n), E6)])
        except Exception:
            pass
    try:
        pp = c.principal_point
        attrs += [["cx", q(pp[0], E6)], ["cy", q(pp[1], E6)]]
    except Exception:
        pass
    w, h = c.width, c.height
    return dict(map=m, attrs=attrs, type=c.projection_type, dist=i6(c.distortion), K=i6(c.get_K()), w=w, h=h,
                Kpx=[q(x, 1000) for x in np.asarray(c.get_K_in_pixel_coordinates(w, h)).ravel()])


def point(t, wide=False):
    """a point in front of the camera, coordinates in millionths"""
    k = R.random()
    if t == "spherical":
        v = [R.uniform(-1, 1) for _ in range(3)]
        if k < .3:
            v[R.randrange(3)] = 0
        if abs(v[0]) + abs(v[2]) < .05:
            v[2] = -.5
    else:
        fish = t.startswith("fisheye")
        th = R.uniform(0, 1.65 if fish and wide else 1.1 if fish else .9 if wide else .65)
        ph = R.choice([R.uniform(0, 6.2832), R.randrange(4) * np.pi / 2])
        v = [np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)]
        if k < .08:
            v = [0, 0, 1]
        elif k < .12:
            v = [1e-5, -2e-5, 1]
    s = R.choice([1, 1, .5, 4])
    return [int(round(x * s * E6)) for x in v]


def project_event(c, t, strong):
    pts = [point(t, strong) for _ in range(8)]
    # the fixed point oracle covers moderate image coordinates
    pts = [p for p in pts if np.abs(c.project(np.array(p) / E6)).max() < 5] or [[0, 0, E6]]
    A = np.array(pts) / E6
    e = dict(op="project", exc="", pts=pts, tol=400 if strong else 150)
    try:
        e["one"] = [i6(c.project(a)) for a in A]
        e["many"] = [i6(a) for a in c.project_many(A)]
    except Exception as ex:
        e["exc"] = exc_name(ex)
    return e


def bearing_event(c, t):
    pix = []
    for _ in range(6):
        if t == "spherical":
            p = [R.uniform(-.5, .5), R.uniform(-.24, .24)]
        else:
            p = c.project(np.array(point(t)) / E6)
        pix.append([int(round(x * E6)) for x in p])
    if t != "spherical":
        pp = [0, 0]
        try:
            pp = i6(c.principal_point)
        except Exception:
            pass
        pix[0] = pp
        pix[1] = [pp[0] + R.choice([0, 1, 50]), pp[1] + R.choice([-1, 0, 30])]
    A = np.array(pix) / E6
    e = dict(op="bearing", exc="", pix=pix, tol=120)
    try:
        e["one"] = [i6(c.pixel_bearing(a)) for a in A]
        e["many"] = [i6(a) for a in c.pixel_bearing_many(A)]
    except Exception as ex:
        e["exc"] = exc_name(ex)
    return e


def pixels_event(c):
    w, h = R.choice([(640, 480), (480, 640), (333, 333), (1, 1), (4000, 2999), (5, 4000), (1921, 1080)])
    px = [[R.choice([0, 1000 * (w - 1), R.randrange(-500, w * 1000)]), R.choice([0, 1000 * (h - 1), R.randrange(-500, h * 1000)])] for _ in range(4)]
    A = np.array(px) / 1000.0
    c.width, c.height = w, h
    e = dict(op="pixels", exc="", w=w, h=h, px=px)
    try:
        forms = [[c.pixel_to_normalized_coordinates(a) for a in A], list(c.pixel_to_normalized_coordinates_many(A)),
                 [C.pixel_to_normalized_coordinates_common(a, w, h) for a in A], list(C.pixel_to_normalized_coordinates_many_common(A, w, h)),
                 list(features.normalized_image_coordinates(A, w, h)),
                 [features.normalize_features(np.array([[a[0], a[1], 1.0, 0]]), None, None, w, h)[0][0, :2] for a in A]]
        N = np.array(forms[0])
        back = [[c.normalized_to_pixel_coordinates(a) for a in N], list(c.normalized_to_pixel_coordinates_many(N)),
                [C.normalized_to_pixel_coordinates_common(a, w, h) for a in N], list(C.normalized_to_pixel_coordinates_many_common(N, w, h)),
                list(features.denormalized_image_coordinates(N, w, h))]
        e["nr"] = [[i6(fm[k]) for fm in forms] for k in range(len(px))]
        e["back"] = [[[q(x, 1000) for x in b[k]] for b in back] for k in range(len(px))]
    except Exception as ex:
        e["exc"] = exc_name(ex)
    return e


OCT = []
for perm in itertools.permutations(range(3)):
    for sg in itertools.product((1, -1), repeat=3):
        M = np.zeros((3, 3), dtype=int)
        for r in range(3):
            M[r, perm[r]] = sg[r]
        if round(np.linalg.det(M)) == 1:
            OCT.append(M)


def shot_event(c, t):
    M = R.choice(OCT)
    o = np.array([R.randrange(-3, 4) for _ in range(3)])
    tr = -M @ o
    rec = types.Reconstruction()
    c.id = "c"
    rec.add_camera(c)
    pose = pygeometry.Pose(M.astype(float), tr.astype(float))
    sh = rec.create_shot("s", "c", pose)
    pts = []
    for _ in range(4):
        v = [R.randrange(-2, 3), R.randrange(-2, 3), R.randrange(3, 6)]
        if t == "spherical":
            v = [R.randrange(-3, 4), R.randrange(-3, 4), R.choice([-2, -1, 1, 2])]
        pts.append([int(x) for x in (M.T @ np.array(v) + o)])
    e = dict(op="shot", exc="", pose=dict(n=1, M=[int(x) for x in M.ravel()], t=[int(x) for x in tr], d=1), pts=pts, tol=200)
    try:
        A = np.array(pts, dtype=float)
        e["one"] = [i6(sh.project(a)) for a in A]
        e["many"] = [i6(a) for a in sh.project_many(A)]
        be = bearing_event(c, t)
        pix = be["pix"]
        e["pix"] = pix
        B = np.array(pix) / E6
        e["rays"] = [i6(sh.bearing(b)) for b in B]
        e["raysm"] = [i6(b) for b in sh.bearing_many(B)]
    except Exception as ex:
        e["exc"] = exc_name(ex)
    return e


def mapping_event(c, t):
    """maps pixels of a target camera (here: c) to a source camera"""
    ft = R.choice([x for x in TYPES if x != "spherical"])
    fp = params(ft, False)
    frm = create(ft, fp)
    w, h = R.choice([(40, 30), (31, 47), (24, 24)])
    e = dict(op="mapping", exc="", w=w, h=h, tol=40)
    e["from"] = dict(t=ft, p=fp)
    try:
        mx, my = pygeometry.compute_camera_mapping(frm, c, w, h)
        e["uv"], e["rays"], e["got"] = [], [], []
        if mx.shape != (h, w) or my.shape != (h, w):
            e["exc"] = "shape"
        z = float(max(w, h))
        for _ in range(8):
            u, v = R.randrange(w), R.randrange(h)
            n = np.array([(u - w * .5) / z, (v - h * .5) / z])
            b = c.pixel_bearing(n)
            if b[2] < .5 or np.abs(c.project(np.array([0, 0, 1.])) - n).max() > .6 * c.focal:
                continue
            e["uv"].append([u, v])
            e["rays"].append(i6(b))
            e["got"].append([q(mx[v, u], 1000), q(my[v, u], 1000)])
    except Exception as ex:
        e["exc"] = exc_name(ex)
    return e


def set_event(c, t, P, strong):
    new = params(t, strong)
    how = R.choice(["attr", "par", "dist", "pp", "values", "attr"])
    e = dict(op="set", exc="")
    if how == "pp":
        names, vals = ["cx", "cy"], [R.randrange(-50000, 50000), R.randrange(-50000, 50000)]
        act = lambda: setattr(c, "principal_point", np.array([f(v) for v in vals]))
    elif how == "dist" and t != "spherical":
        names = list(OWN[t])
        vals = [new[n] for n in names]
        act = lambda: setattr(c, "distortion", np.array([f(v) for v in vals]))
    elif how == "values" and t != "spherical":
        names = [str(k).split(".")[-1] for k in c.get_parameters_types()]
        vals = [new[n] for n in names]
        act = lambda: c.set_parameters_values(np.array([f(v) for v in vals]))
    elif how == "attr":
        n = R.choice(["focal", "aspect_ratio", "transition"])
        names, vals = [n], [new[n] if n != "transition" else R.randrange(E6)]
        act = lambda: setattr(c, n, f(vals[0]))
    else:
        own = [n for n in OWN[t] + ["focal", "aspect_ratio", "cx"]]
        n = R.choice(own + DORD)
        names, vals = [n], [new[n]]
        act = lambda: c.set_parameter_value(getattr(PAR, n), f(vals[0]))
    e["names"], e["vals"] = names, vals
    try:
        act()
    except Exception as ex:
        e["exc"] = exc_name(ex)
    e.update(reads(c))
    return e


cases = []
for i in range(inp["random"]):
    t = TYPES[i % len(TYPES)]
    strong = R.random() < .4
    P = params(t, strong)
    progress(dict(case=i, type=t, params=P))
    c = create(t, P)
    c.width, c.height = R.choice([(400, 300), (640, 480), (300, 400), (51, 50)])
    e = dict(op="new", exc="", t=t, p=P)
    e.update(reads(c))
    ev = [e]
    for _ in range(R.randrange(3, 8)):
        k = R.random()
        # bearings only while every distortion is mild (each pixel then has one ray)
        if k < .3:
            ev.append(project_event(c, t, strong))
        elif k < .5 and not strong:
            ev.append(bearing_event(c, t))
        elif k < .6:
            ev.append(pixels_event(c))
        elif k < .72 and not strong:
            ev.append(shot_event(c, t))
        elif k < .8 and not strong and t != "spherical":
            ev.append(mapping_event(c, t))
        else:
            ev.append(set_event(c, t, P, strong))
    cases.append(dict(kind="cam", events=ev))
save_output(dict(cases=cases))
