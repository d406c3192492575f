------------------------------- MODULE MonGeo -------------------------------
EXTENDS TraceBase
G == INSTANCE GeoFrame WITH k <- 0
MStart(case) == 0
Near(a, b, t) == Abs(a - b) <= t
Near3(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t) /\ Near(a[3], b[3], t)
NearStep(e) ==
  LET E == G!East(e.lat, e.alt, e.dlat, e.dlon)
      N == G!North(e.lat, e.alt, e.dlat, e.dlon)
      U == G!Up(e.lat, e.alt, e.dlat, e.dlon, e.dalt)
      want == <<E, N, U>>
      flat == 1000 * G!Hyp(G!Km(G!East(e.lat, 0, e.dlat, e.dlon)), G!Km(G!North(e.lat, 0, e.dlat, e.dlon)))
      \* the rising altitude stretches the horizontal displacement a little
      tol == 12000 + (Max2(Abs(E), Abs(N)) \div 20000) + (Abs(e.dalt) \div 6000)
  IN IF ~Near3(e.got, want, tol) THEN No("the local frame is not east, north, up in metres at the reference")
     ELSE IF ~Near3(e.bulk[1], e.got, 10) \/ ~Near3(e.bulk[2], <<0, 0, 0>>, 10) THEN No("bulk conversion differs, or the reference is not the origin")
     ELSE IF ~Near3(e.back, <<0, 0, 0>>, 50) \/ ~Near3(e.back2, <<0, 0, 0>>, 50) THEN No("local coordinates do not convert back")
     ELSE IF ~Near(e.dist[1], flat, tol) \/ ~Near(e.dist[1], e.dist[2], 1) \/ e.dist[3] # 0 THEN No("wrong distance between positions")
     ELSE IF e.eq # <<1, 0>> THEN No("frames compare wrongly")
     ELSE Ok(0)
FarStep(e) ==
  LET p == G!Ecef(e.lat, e.lon, e.alt)
      a == G!Axes(e.lat, e.lon)
  IN IF ~Near3(e.ecef, p, 25) \/ ~Near3(e.To, p, 25) THEN No("wrong earth-centred position")
     ELSE IF ~Near3(e.up, <<a[1][3], a[2][3], a[3][3]>>, 8) THEN No("altitude is not along the vertical")
     ELSE IF \E i \in 1..3 : ~Near3(e.T[i], a[i], 8) THEN No("the axes of the local frame are not east, north and up")
     ELSE IF ~Near3(e.bulk, e.ecef, 1) THEN No("bulk conversion differs")
     ELSE IF ~Near3(e.back, <<0, 0, 0>>, 100) THEN No("earth-centred coordinates do not convert back")
     ELSE Ok(0)
(* control points of a list: lines of the same position make one point, in order of appearance *)
GcpStep(e) ==
  LET use == SelectSeq(e.lines, LAMBDA l : Len(l.size) > 0)
      Same(a, b) == a.lon = b.lon /\ a.lat = b.lat /\ a.alt = b.alt
      firsts == SelectSeq([k \in 1..Len(use) |-> k], LAMBDA k : \A j \in 1..(k - 1) : ~Same(use[j], use[k]))
      of(k) == SelectSeq(use, LAMBDA l : Same(l, use[k]))
      \* tenths of pixels to normalized coordinates
      nx(l) == (100000 * ((l.px + 5) - (5 * l.size[1]))) \div Max2(l.size[1], l.size[2])
      ny(l) == (100000 * ((l.py + 5) - (5 * l.size[2]))) \div Max2(l.size[1], l.size[2])
  IN IF Len(e.got) # Len(firsts) THEN No("not one control point per position")
     ELSE IF Cardinality({e.got[k].id : k \in 1..Len(e.got)}) # Len(e.got) THEN No("control points share an id")
     ELSE IF \E k \in 1..Len(firsts) :
               LET g == e.got[k]
                   l == use[firsts[k]]
               IN ~(Near(g.lon, l.lon, 1) /\ Near(g.lat, l.lat, 1)) THEN No("a control point has another position than its line")
     ELSE IF \E k \in 1..Len(firsts) :
               LET g == e.got[k]
                   l == use[firsts[k]]
               IN g.has # Len(l.alt) \/ ~Near(g.alt, IF Len(l.alt) > 0 THEN l.alt[1] ELSE 0, 1) THEN No("wrong altitude of a control point")
     ELSE IF \E k \in 1..Len(firsts) :
               LET g == e.got[k]
                   o == of(firsts[k])
               IN Len(g.obs) # Len(o) \/ (IF Len(g.obs) # Len(o) THEN TRUE
                  ELSE \E i \in 1..Len(o) : g.obs[i][1] # o[i].im \/ ~Near(g.obs[i][2], nx(o[i]), 2) \/ ~Near(g.obs[i][3], ny(o[i]), 2))
          THEN No("the observations of a control point are not those of its lines")
     ELSE Ok(0)
Weight(d) == IF d = 0 THEN 3000 ELSE 30 \div d
RefStep(e) ==
  LET use == SelectSeq(e.rows, LAMBDA r : r.ok = 1)
      sum(f(_)) == Total([k \in 1..Len(use) |-> f(use[k])])
      w == sum(LAMBDA r : Weight(r.dop))
      g(i) == Total([k \in 1..Len(e.gcp) |-> e.gcp[k][i]])
      want == IF Len(use) > 0 THEN <<e.base[1] + (sum(LAMBDA r : Weight(r.dop) * r.d[1]) \div w), e.base[2] + (sum(LAMBDA r : Weight(r.dop) * r.d[2]) \div w), 0>>
              ELSE IF Len(e.gcp) > 0 THEN <<e.base[1] + (g(1) \div Len(e.gcp)), e.base[2] + (g(2) \div Len(e.gcp)), 0>>
              ELSE <<0, 0, 0>>
  IN IF ~Near3(e.got, want, 2) THEN No("the reference is not the weighted mean of the positions at altitude 0")
     ELSE IF e.again # e.got THEN No("an existing reference is replaced")
     ELSE Ok(0)
ExportStep(e) ==
  IF \E k \in 1..Len(e.diffs) : ~(Near(e.diffs[k][2], 0, 30) /\ Near(e.diffs[k][3], 0, 30) /\ Near(e.diffs[k][4], 0, 30))
  THEN No("an exported position is not the projected one: " \o (LET k == CHOOSE k \in 1..Len(e.diffs) : ~(Near(e.diffs[k][2], 0, 30) /\ Near(e.diffs[k][3], 0, 30) /\ Near(e.diffs[k][4], 0, 30)) IN e.diffs[k][1]))
  ELSE IF \E k \in 1..Len(e.views) : ~Near3(e.views[k], <<0, 0, 0>>, 2000) THEN No("an exported orientation does not look the same way")
  ELSE IF e.flags[1] = 1 /\ e.shape # <<4, 4>> THEN No("the exported transformation is not a 4x4 matrix")
  ELSE IF e.flags[2] = 1 /\ (e.header # <<"Image", "X", "Y", "Z">> \/ Set(e.rows) # Set(e.ids) \/ Len(e.rows) # Len(e.ids)) THEN No("not one exported position per image")
  ELSE IF e.flags[3] = 1 /\ (e.rshots # e.ids \/ e.rpoints # e.pids) THEN No("the exported reconstruction lacks images or points")
  ELSE IF e.flags[4] = 1 /\ (e.nvert # <<e.ncloud>> \/ Len(e.cloud) # e.ncloud \/ \E k \in 1..Len(e.cloud) : e.cloud[k] # <<5, 6, 7, 9>>) THEN No("the exported point cloud lost points, colours or labels")
  ELSE Ok(0)
MStep(case, s, e) ==
  IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE CASE e.op = "near" -> NearStep(e) [] e.op = "far" -> FarStep(e) [] e.op = "gcplist" -> GcpStep(e)
         [] e.op = "gcpjson" -> (IF e.before = e.after THEN Ok(0) ELSE No("control points change when saved and loaded"))
         [] e.op = "ref" -> RefStep(e) [] e.op = "export" -> ExportStep(e)
=============================================================================
