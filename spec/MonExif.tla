------------------------------ MODULE MonExif -------------------------------
EXTENDS TraceBase
X == INSTANCE ExifMeta WITH d <- 0
MStart(case) == 0
Near(a, b, tol) == Abs(a - b) <= tol
Or(s, x) == IF Len(s) > 0 THEN s[1] ELSE x
SizeOf(t) == IF t.useexif = 1 /\ Len(t.exsize) > 0 THEN t.exsize
             ELSE IF t.useexif = 1 /\ Len(t.imsize) > 0 THEN t.imsize ELSE t.real
(* sensor width in micrometres from the focal plane resolution; 0: unknown *)
UmPerUnit(u) == CASE u = 2 -> 25400 [] u = 3 -> 10000 [] u = 4 -> 1000 [] u = 5 -> 1 [] OTHER -> 0
(* focal length over sensor width, in 1e-6; <<>> if it cannot be compared *)
Ratio(t, e) ==
  IF Len(t.f35) > 0 /\ t.f35[1] > 0 THEN (t.f35[1] * 1000000) \div 36
  ELSE LET f == IF Len(t.f) = 0 THEN 0 ELSE (t.f[1] * 1000) \div t.f[2]       \* in micrometres
           known == IF Len(t.unit) > 0 /\ Len(t.xres) > 0 THEN UmPerUnit(t.unit[1]) > 0 ELSE FALSE
           res == IF ~known THEN <<0, 1>> ELSE IF t.xres[1] > 0 THEN t.xres ELSE IF Len(t.yres) > 0 THEN t.yres ELSE <<0, 1>>
           u == IF known THEN UmPerUnit(t.unit[1]) ELSE 0
           wd == SizeOf(t)[1] * res[2]
       IN IF f = 0 THEN 0
          \* the sensor is width / resolution wide: f / (w u d / n)
          ELSE IF known /\ res[1] > 0 THEN
                 (IF ((f \div u) + 1) * ((res[1] \div wd) + 1) > 1500 THEN e.ratio       \* not a camera: beyond the arithmetic
                  ELSE IF u = 1 THEN X!FDiv(f * res[1], wd)
                  ELSE X!FMul(X!FDiv(f, u), X!FDiv(res[1], wd)))
          ELSE IF Len(e.sensor) > 0 THEN X!FDiv(f, e.sensor[1])
          ELSE 0
TimeOf(t, e) ==
  LET gps == Len(t.gdate) > 0 /\ Len(t.gtime) > 0
      ok == gps /\ (IF gps THEN X!Valid(t.gtime) ELSE FALSE)
      usable(k) == Len(t.times[k]) > 0 /\ t.badtime # k
      first == IF \E k \in 1..3 : usable(k) THEN CHOOSE k \in 1..3 : usable(k) /\ \A j \in 1..(k - 1) : ~usable(j) ELSE 0
  IN IF ok THEN <<X!Epoch(<<t.gdate[1], t.gdate[2], t.gdate[3], t.gtime[1][1], t.gtime[2][1], 0>>) + (t.gtime[3][1] \div 1000), (t.gtime[3][1] % 1000) * 1000>>
     ELSE IF first = 0 THEN <<0, 0>>
     ELSE <<X!Epoch(t.times[first]) - (60 * Or(e.offs[first], 0)), e.subs[first][1]>>
LatLon(t, e) ==
  IF t.xmp = 1 /\ Len(t.dji) > 0 THEN e.djimas
  ELSE IF Len(t.lat) > 0 /\ Len(t.lon) > 0 THEN
         (IF X!Valid(t.lat) /\ X!Valid(t.lon) THEN <<X!Angle(t.lat, Or(t.latref, "N")), X!Angle(t.lon, Or(t.lonref, "E"))>> ELSE <<>>)
  ELSE <<>>
AltOf(t) ==
  IF Len(t.djialt) > 0 THEN <<Min2(t.djialt[1], 10000000)>>
  ELSE IF Len(t.alt) = 0 THEN <<>>
  ELSE LET a == (IF t.alt[1] >= 1000000 /\ t.alt[2] = 1 THEN 1000000000 ELSE X!Scaled(t.alt, 1000))
       IN <<Min2(IF Len(t.altref) > 0 /\ t.altref[1] = 1 THEN -a ELSE a, 10000000)>>
(* yaw, pitch and roll: explicit ones first; the drone's gimbal looks at the horizon at pitch 0 *)
YprOf(t, e) == IF Len(t.ypr) > 0 THEN e.yprrad
               ELSE IF Len(t.yprdji) > 0 THEN <<e.djirad[1], e.djirad[2] + X!HalfPI, e.djirad[3]>> ELSE <<>>
IdOf(e) == "v2 " \o e.idmake \o " " \o e.idmodel \o " " \o ToString(e.size[1]) \o " " \o ToString(e.size[2]) \o " " \o e.proj \o " " \o e.idtoken
ExifStep(e) ==
  LET t == e.t
      ll == LatLon(t, e)
      al == AltOf(t)
      ypr == YprOf(t, e)
      tm == TimeOf(t, e)
      rt == Ratio(t, e)
      geo == Len(ll) = 2 /\ t.xmp = 1 /\ Len(ypr) = 3
  IN IF e.size # SizeOf(t) THEN No("wrong image size")
     ELSE IF e.make # e.wantmake \/ e.model # e.wantmodel THEN No("wrong make or model")
     ELSE IF e.orient # (IF Len(t.orient) > 0 /\ t.orient[1] # 0 THEN t.orient[1] ELSE 1) THEN No("wrong orientation")
     ELSE IF Len(ll) # Len(e.lat) + Len(e.lon) THEN No("position missing or invented")
     ELSE IF Len(ll) = 2 /\ ~(Near(ll[1], e.lat[1], 2) /\ Near(ll[2], e.lon[1], 2)) THEN No("wrong latitude or longitude")
     ELSE IF Len(al) # Len(e.alt) THEN No("altitude missing or invented")
     ELSE IF Len(al) = 1 /\ ~(Near(al[1], e.alt[1], 1)
                              \/ (Len(t.djialt) = 0 /\ t.alt[1] >= 1000000 /\ t.alt[2] = 1 /\ al[1] < 0 /\ e.alt[1] < -1000000)) THEN No("wrong altitude")
     ELSE IF Len(e.dop) # (IF Len(t.dop) > 0 /\ t.dop[2] # 0 THEN 1 ELSE 0) THEN No("dop missing or invented")
     ELSE IF Len(e.dop) = 1 /\ e.dop[1] # X!Scaled(t.dop, 1000) THEN No("wrong dop")
     ELSE IF ~(e.time[1] = tm[1] /\ Near(e.time[2], tm[2], 2)) THEN No("wrong capture time")
     ELSE IF e.proj # Or(t.proj, "perspective") THEN No("wrong projection type")
     ELSE IF ~Near(e.ratio, rt, 5 + (rt \div 5000)) THEN No("wrong focal ratio")
     ELSE IF e.id # IdOf(e) THEN No("the camera id does not name make, model, size, projection and focal")
     ELSE IF Len(e.opk) # (IF geo THEN 3 ELSE 0) THEN No("orientation angles missing or invented")
     ELSE IF geo /\ ~X!Near(X!OfOpk(e.opk), X!OfYpr(ypr), 60) THEN No("the OPK angles are not the rotation of yaw, pitch and roll")
     ELSE Ok(0)
(* ---- cameras ---- *)
TwoFocals == {"brown", "fisheye_opencv", "radial", "simple_radial", "fisheye62", "fisheye624"}
Rows(e) == {e.rows[k] : k \in 1..Len(e.rows)}
Hard(e) == LET all == {r \in Rows(e) : r[2] = "ALL"}
               mods == {r \in Rows(e) : r[2] = "MODEL"}
               mine == {r \in mods : r[3] = e.model}
               foc == {r \in Rows(e) : r[2] = "FOCAL" /\ r[3] = e.mm35}
           IN IF all # {} THEN all ELSE IF mods # {} THEN mine ELSE foc
Get(ps, k, x) == IF \E i \in 1..Len(ps) : ps[i][1] = k THEN ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2] ELSE x
Names(ty) == CASE ty = "perspective" -> {"k1", "k2", "focal"}
               [] ty = "fisheye" -> {"k1", "k2", "focal"}
               [] ty = "brown" -> {"k1", "k2", "k3", "p1", "p2"} \cup {"focal", "aspect_ratio", "cx", "cy"}
               [] ty = "fisheye_opencv" -> {"k1", "k2", "k3", "k4", "focal", "aspect_ratio", "cx", "cy"}
               [] ty = "fisheye62" -> {"k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "focal", "aspect_ratio", "cx", "cy"}
               [] ty = "fisheye624" -> {"k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3", "focal", "aspect_ratio", "cx", "cy"}
               [] ty = "radial" -> {"k1", "k2", "focal", "aspect_ratio", "cx", "cy"}
               [] ty = "simple_radial" -> {"k1", "focal", "aspect_ratio", "cx", "cy"}
               [] OTHER -> {}
CamStep(e) ==
  LET hs == Hard(e)
      h == IF hs # {} THEN CHOOSE r \in hs : TRUE ELSE <<"", "", "", <<>>, "">>
      two == e.pt \in TwoFocals
      ty0 == IF h[5] # "" THEN h[5] ELSE e.pt
      ty == IF ty0 = "equirectangular" THEN "spherical" ELSE ty0
      f == IF hs # {} THEN Get(h[4], "focal", Get(h[4], "focal_x", 0))
           ELSE IF two THEN (IF Len(e.fx) > 0 THEN e.fx[1] ELSE IF e.ratio # 0 THEN e.ratio ELSE e.dflt)
           ELSE IF e.ratio # 0 THEN e.ratio ELSE e.dflt
      asp == IF hs # {} /\ Get(h[4], "focal_y", 0) # 0 THEN X!FDiv(Get(h[4], "focal_y", 0), f) ELSE X!E6
      cc(k) == IF hs # {} THEN Get(h[4], IF k = 1 THEN "c_x" ELSE "c_y", 0) ELSE IF Len(e.fx) > 0 \/ e.ratio # 0 THEN e.c[k] ELSE 0
      want(n) == CASE n = "focal" -> f [] n = "aspect_ratio" -> asp [] n = "cx" -> cc(1) [] n = "cy" -> cc(2)
                   [] OTHER -> IF hs # {} THEN Get(h[4], n, 0) ELSE 0
      g == e.got[1]
  IN IF g.id # e.wantid \/ g.size # e.wantsize THEN No("the camera has another id or size than the metadata")
     ELSE IF ty = "spherical" THEN (IF g.type \in {"spherical", "equirectangular"} THEN Ok(0) ELSE No("wrong projection type of the camera"))
     ELSE IF g.type # ty THEN No("wrong projection type of the camera")
     ELSE IF \E n \in Names(ty) : ~\E i \in 1..Len(g.params) : g.params[i][1] = n THEN No("the camera lacks a parameter")
     ELSE IF \E n \in Names(ty) : ~Near(Get(g.params, n, 0), want(n), 3) THEN No("the camera does not have the calibrated, EXIF or default parameters")
     ELSE Ok(0)
RunStep(e) ==
  LET keys == {e.cams[k][1] : k \in 1..Len(e.cams)}
      ids == Set(e.ids)
      extra == IF e.ov = "some" THEN {e.ovid} ELSE {}
      kind(k) == e.cams[CHOOSE i \in 1..Len(e.cams) : e.cams[i][1] = k][3]
  IN IF e.preok = 0 THEN No("metadata extracted earlier is not kept")
     ELSE IF e.overok = 0 THEN No("an EXIF override is not applied")
     ELSE IF keys # ids \cup extra THEN No("the camera models are not those of the images and the overrides")
     ELSE IF \E i \in 1..Len(e.cams) : e.cams[i][2] # e.cams[i][1] THEN No("a camera is stored under another id")
     ELSE IF \E k \in keys : (kind(k) = "over") # (e.ov = "all" \/ k \in extra) THEN No("camera overrides not applied exactly where asked")
     ELSE IF e.dpt # "" /\ \E i \in 1..Len(e.projs) : e.projs[i] # e.dpt THEN No("default projection type not applied")
     ELSE IF \E i \in 1..Len(e.fresh) : e.nomodel[i] = 1 /\ (e.models[i] = "unknown_" \o e.fresh[i]) # (e.diff = 1) THEN No("unknown cameras are merged or split against the configuration")
     ELSE Ok(0)
MStep(case, s, e) ==
  IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE CASE e.op = "exif" -> ExifStep(e) [] e.op = "camera" -> CamStep(e) [] e.op = "run" -> RunStep(e)
=============================================================================
