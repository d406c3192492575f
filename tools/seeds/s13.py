PRE = '''import stubs, sys, types as T, datetime
from fractions import Fraction
for n in ("pyexiv2", "pyexiv2.utils", "gpxpy"):
    sys.modules.setdefault(n, T.ModuleType(n))
sys.modules["pyexiv2.utils"].make_fraction = lambda a, b=1: Fraction(a, b)
from opensfm import geotag_from_gpx as G
T0 = datetime.datetime(2020, 1, 1)
at = lambda s: T0 + datetime.timedelta(seconds=s)
'''
SEEDS = [
 dict(id="c30-dense-keys", property="C30",
  edits=[("opensfm/geotag_from_gpx.py", "    da = (a[0] - last[0]).total_seconds()\n", "    da = (a[0] - last[0]).seconds\n")],
  needs="key points by time on a track whose times have fractions of seconds", breaks="key points of tracks with fractional times are misplaced",
  demo=PRE + '''
pts = [(at(s), 10 + s * 1e-5, 20., 0.) for s in (0, .5, 1.75, 4, 9)]
try:
    k = G.sample_gpx(pts, 1.0, 1.0)
except AssertionError:
    sys.exit(1)
for i, p in enumerate(k):
    s = (p[0] - T0).total_seconds()
    assert abs(s - i) < 1e-3, s
    assert abs(p[1] - (10 + s * 1e-5)) < 1e-9, p
assert len(k) == 10
'''),
 dict(id="c30-west-bearing", property="C30",
  edits=[("opensfm/geotag_from_gpx.py", "            dLong = 2.0 * math.pi + dLong\n", "            dLong = math.pi + dLong\n")],
  needs="a track that crosses the 180th meridian eastwards", breaks="the bearing across the meridian is wrong",
  demo=PRE + '''
assert abs(G.compute_bearing(0, 179.99, 0.01, -179.99) - 63.43) < .1
assert abs(G.compute_bearing(0, -179.99, 0.01, 179.99) - 296.57) < .1
assert abs(G.compute_bearing(0, 1, 0.01, 1.02) - 63.43) < .1
'''),
 dict(id="c30-below-sea", property="C30",
  edits=[("opensfm/geotag_from_gpx.py", """            exiv_elevation = make_fraction(int(abs(elevation) * 100), 100)
            metadata["Exif.GPSInfo.GPSAltitude"] = exiv_elevation
            metadata["Exif.GPSInfo.GPSAltitudeRef"] = "0" if elevation >= 0 else "1"

""", """            exiv_elevation = make_fraction(int(abs(elevation) * 100), 100)
            metadata["Exif.GPSInfo.GPSAltitude"] = exiv_elevation
            metadata["Exif.GPSInfo.GPSAltitudeRef"] = "0" if points[0][3] >= 0 else "1"

""")],
  needs="a track that starts above sea level and goes below", breaks="images below sea level are tagged above it",
  demo=PRE + '''
class V:
    def __init__(self, v): self.value = v
class M(dict):
    last = None
    def __init__(self, f): M.last = self
    def read(self): pass
    def write(self): pass
    def __getitem__(self, k): return V(dict.get(self, k))
sys.modules["pyexiv2"].ImageMetadata = M
pts = [(at(0), 1., 2., 5.), (at(10), 1.001, 2., -5.)]
for t, ref, h in ((2, "0", 3), (8, "1", 3)):
    G.add_exif_using_timestamp("x", pts, timestamp=at(t))
    assert M.last["Exif.GPSInfo.GPSAltitudeRef"].value == ref
    assert M.last["Exif.GPSInfo.GPSAltitude"].value == h
'''),
 dict(id="c30-sparse-walk", property="C30",
  edits=[("opensfm/geotag_from_gpx.py", "    C = geo.ecef_from_lla(last[1], last[2], 0.0)\n    alpha = segment_sphere_intersection(A, B, C, dx)\n", "    alpha = segment_sphere_intersection(A, B, A, dx)\n")],
  needs="a step by distance longer than a turning segment of the track", breaks="key points are not at the step from each other",
  demo=PRE + '''
from opensfm import geo
pts = [(at(0), 0., 0., 0.), (at(1), .00005, 0., 0.), (at(2), .00005, .00005, 0.), (at(9), .0003, .0003, 0.)]
try:
    k = G.sample_gpx(pts, 10.)
except AssertionError:
    sys.exit(1)
for a, b in zip(k, k[1:]):
    assert abs(geo.gps_distance(a[1:3], b[1:3]) - 10) < .05
assert len(k) == 5, len(k)
'''),
]
