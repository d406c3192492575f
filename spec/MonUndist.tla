----------------------------- MODULE MonUndist ------------------------------
EXTENDS TraceBase
F == INSTANCE FixedPoint
P == INSTANCE PanoFaces WITH d <- <<0, 0, 1>>
MStart(case) == 0
Near(a, b, t) == Abs(a - b) <= t
Near3(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t) /\ Near(a[3], b[3], t)
Dot(u, v) == F!FMul(u[1], v[1]) + F!FMul(u[2], v[2]) + F!FMul(u[3], v[3])
Supported == {"perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "spherical"}
NewIds(e, s) == IF s.type = "spherical" THEN [k \in 1..6 |-> s.full \o "_perspective_view_" \o P!Names[k] \o "." \o e.fmt]
                ELSE <<IF s.fits = 1 THEN s.full ELSE s.full \o "." \o e.fmt>>
(* the direction of a pixel of a panorama *)
PanoDir(p) == LET lon == F!FMul(2 * F!PI, p[1])
                  lat == -F!FMul(2 * F!PI, p[2])
              IN <<F!FMul(F!FCos(lat), F!FSin(lon)), -F!FSin(lat), F!FMul(F!FCos(lat), F!FCos(lon))>>
(* sizes: a panorama view has the configured size, others keep the size of the picture; both are limited *)
Limit(w, h, m) == LET big == Max2(w, h) IN IF big <= m THEN <<w, h>> ELSE <<((2 * w * m) + big) \div (2 * big), ((2 * h * m) + big) \div (2 * big)>>
SizeOf(e, s) == IF s.type = "spherical" THEN Limit(e.res, e.res, e.maxsize) ELSE Limit(s.pic[1], s.pic[2], e.maxsize)
InFace(f, v) == LET M == P!Face[f]
                    dot(r) == (r[1] * v[1]) + (r[2] * v[2]) + (r[3] * v[3])
                IN <<dot(M[1]), dot(M[2]), dot(M[3])>>
Margin == 400
Rec(e) ==
  LET ok == SelectSeq(e.shots, LAMBDA s : s.listed = 1 /\ s.type \in Supported)
      want == UNION {{<<s.full, NewIds(e, s)>>} : s \in Set(ok)}
      got == {<<e.map[k][1], e.map[k][2]>> : k \in 1..Len(e.map)}
      allIds == UNION {Set(NewIds(e, s)) : s \in Set(ok)}
      of(id) == CHOOSE u \in Set(e.ushots) : u.id = id
      src(id) == CHOOSE s \in Set(ok) : id \in Set(NewIds(e, s))
      faceOf(s, id) == CHOOSE k \in 1..6 : NewIds(e, s)[k] = id
      badPose(id) == LET s == src(id)
                         u == of(id)
                     IN \/ ~Near3(u.o, s.o, 40)
                        \/ IF s.type = "spherical"
                           THEN LET M == P!Face[P!Names[faceOf(s, id)]]
                                    row(i) == <<(M[i][1] * s.R[1][1]) + (M[i][2] * s.R[2][1]) + (M[i][3] * s.R[3][1]),
                                                (M[i][1] * s.R[1][2]) + (M[i][2] * s.R[2][2]) + (M[i][3] * s.R[3][2]),
                                                (M[i][1] * s.R[1][3]) + (M[i][2] * s.R[2][3]) + (M[i][3] * s.R[3][3])>>
                                IN \E i \in 1..3 : ~Near3(u.R[i], row(i), 5)
                           ELSE \E i \in 1..3 : ~Near3(u.R[i], s.R[i], 5)
      badCam(id) == LET s == src(id)
                        u == of(id)
                    IN \/ u.cam[1] # "perspective" \/ u.cam[3] # 0 \/ u.cam[4] # 0
                       \/ IF s.type = "spherical" THEN u.cam[2] # 500000 \/ u.cam[5] # e.res \/ u.cam[6] # e.res
                          ELSE ~Near(u.cam[2], IF s.type \in {"perspective", "fisheye"} THEN s.cam[1] ELSE F!FMul(s.cam[1], (1000000 + s.cam[2]) \div 2), 2)
                               \/ u.cam[5] # s.cam[3] \/ u.cam[6] # s.cam[4]
      badMeta(id) == of(id).meta # src(id).meta
      inSrc(id) == e.tracks # <<>> /\ Len(src(id).obs) > 0
      (* observations *)
      ob(u, t) == SelectSeq(u.obs, LAMBDA o : o.t = t)
      badObs(id) ==
        LET s == src(id)
            u == of(id)
        IN \/ \E o \in Set(u.obs) : \A p \in Set(s.obs) : p.t # o.t
           \/ \E p \in Set(s.obs) :
                LET g == ob(u, p.t)
                IN IF s.type = "spherical"
                   THEN LET v == InFace(P!Names[faceOf(s, id)], PanoDir(p.p))
                            far == v[3] < Margin \/ Abs(v[1]) > v[3] + Margin \/ Abs(v[2]) > v[3] + Margin
                            sure == v[3] > Margin /\ Abs(v[1]) < v[3] - Margin /\ Abs(v[2]) < v[3] - Margin
                        IN \/ sure /\ Len(g) = 0
                           \/ far /\ Len(g) > 0
                           \/ Len(g) > 1
                           \/ Len(g) = 1 /\ (g[1].rest # p.rest \/ ~Near(g[1].p[1], F!FDiv(v[1], v[3]) \div 2, 60) \/ ~Near(g[1].p[2], F!FDiv(v[2], v[3]) \div 2, 60))
                   ELSE \/ Len(g) > 1
                        \/ Len(g) = 0 /\ p.b[3] > 10
                        \/ Len(g) = 1 /\ p.b[3] < -10
                        \/ Len(g) = 1 /\ (g[1].rest # p.rest
                              \/ IF p.b[3] > 150000
                                 THEN ~Near(g[1].p[1], F!FMul(u.cam[2], F!FDiv(p.b[1], p.b[3])), 100) \/ ~Near(g[1].p[2], F!FMul(u.cam[2], F!FDiv(p.b[2], p.b[3])), 100)
                                 ELSE FALSE)
  IN IF got # want THEN No("not every supported image got its undistorted images")
     ELSE IF {u.id : u \in Set(e.ushots)} # allIds \/ Len(e.ushots) # Cardinality(allIds) THEN No("the undistorted reconstruction has other images")
     ELSE IF \E id \in allIds : badPose(id) THEN No("an undistorted image has the wrong pose")
     ELSE IF \E id \in allIds : badCam(id) THEN No("an undistorted image has the wrong camera")
     ELSE IF \E id \in allIds : badMeta(id) THEN No("an undistorted image lost its metadata")
     ELSE IF e.pts[1] # e.pts[2] THEN No("points change")
     ELSE IF e.ref[1] # e.ref[2] THEN No("the reference changes")
     ELSE IF e.tracks = <<1>> /\ \E id \in allIds : badObs(id) THEN No("the tracks are not those seen in the undistorted image")
     ELSE IF e.files = <<>> THEN Ok(0)
     ELSE IF \E id \in allIds : e.nofile = 0 /\ ~(\E f \in Set(e.files) : f[1] = id) THEN No("an undistorted image was not written")
     ELSE IF \E f \in Set(e.files) : f[1] \in allIds /\ f[2] # src(f[1]).has THEN No("masks or segmentations are missing")
     ELSE IF \E f \in Set(e.files) : f[1] \in allIds /\ \E k \in 1..Len(f[3]) : ~(Near(f[3][k][1], SizeOf(e, src(f[1]))[1], e.slack) /\ Near(f[3][k][2], SizeOf(e, src(f[1]))[2], e.slack)) THEN No("an undistorted image, mask or segmentation has the wrong size")
     ELSE IF \E k \in 1..Len(e.look) : LET l == e.look[k] IN IF l[1] = "i" THEN l[2] < l[3][1] \/ l[2] > l[3][2] ELSE l[2] \notin Set(l[3]) THEN No("a written picture shows something else")
     ELSE Ok(0)
(* an undistorted picture shows, at each pixel, what the original shows in that direction *)
Image(e) ==
  IF e.got # e.size THEN No("the undistorted picture has the wrong size")
  ELSE IF \E k \in 1..Len(e.px) : LET p == e.px[k] IN ~(Near(p[1], p[3], p[5]) /\ Near(p[2], p[4], p[5])) THEN No("a pixel shows another direction")
  ELSE IF \E k \in 1..Len(e.labels) : e.labels[k][1] \notin Set(e.labels[k][2]) THEN No("a label changes")
  ELSE Ok(0)
(* panorama views: the colour of a pixel is its direction in the panorama *)
PanoImage(e) ==
  LET bad(p) == LET s == 2 * p.w
                    x == ((2 * p.u) + 1 - p.w)
                    y == ((2 * p.v) + 1 - p.w)
                    \* direction in the face: (x, y, w) up to scale; then in the panorama by the transpose
                    M == P!Face[p.face]
                    c(i) == (M[1][i] * x) + (M[2][i] * y) + (M[3][i] * p.w)
                    lon == F!FAtan2(c(1) * 1000, c(3) * 1000)
                    lat == F!FAtan2(c(2) * 1000, F!Hyp(c(1) * 1000, c(3) * 1000))
                    wx == F!FDiv(lon, 2 * F!PI)
                    wy == F!FDiv(lat, 2 * F!PI)
                IN ~(Near(p.got[1], wx, p.tol) \/ Abs(wx) > 500000 - (2 * p.tol)) \/ ~Near(p.got[2], wy, p.tol)
  IN IF \E k \in 1..Len(e.px) : bad(e.px[k]) THEN No("a pixel of a panorama view shows another direction")
     ELSE Ok(0)
MStep(case, s, e) ==
  IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE CASE e.op = "rec" -> Rec(e) [] e.op = "image" -> Image(e) [] e.op = "pano" -> PanoImage(e)
=============================================================================
