------------------------------- MODULE MonCam -------------------------------
(* Judges cameras of the real code against CameraModel (numbers * 10^6).      *)
EXTENDS TraceBase
C == INSTANCE CameraModel WITH st <- 0
P == INSTANCE PoseAlg
MStart(case) == [t |-> "", p |-> C!Zero]
Nr(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Fn(seq) == [k \in {x[1] : x \in Set(seq)} |-> (CHOOSE x \in Set(seq) : x[1] = k)[2]]
DistOrder == <<"k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3">>
Own(t) == SelectSeq(DistOrder, LAMBDA n : n \in C!Names(t))
(* every way of reading the parameters *)
Reads(s, e) ==
  LET want == [n \in C!Names(s.t) \ {"none"} |-> s.p[n]]
      m == Fn(SelectSeq(e.map, LAMBDA x : x[1] # "none"))
  IN IF DOMAIN m # DOMAIN want \/ \E n \in DOMAIN want : Abs(m[n] - want[n]) > 1 THEN "parameter map"
     ELSE IF e.type # s.t THEN "projection type"
     ELSE IF \E x \in Set(e.attrs) : x[1] \notin DOMAIN want \/ Abs(x[2] - want[x[1]]) > 1 THEN "parameter attribute"
     ELSE IF ~Nr(e.dist, [k \in 1..Len(Own(s.t)) |-> s.p[Own(s.t)[k]]], 1) THEN "distortion vector"
     ELSE IF s.t # "spherical" /\ ~Nr(e.K, C!KMat(s.p), 3) THEN "calibration matrix"
     ELSE IF s.t # "spherical" /\ ~Nr(e.Kpx, LET z == Max2(e.w, e.h) IN   \* in thousandths of a pixel
             <<C!FMul(s.p.focal, 1000 * z), 0, C!FMul(s.p.cx, 1000 * z) + (500 * e.w), 0, C!FMul(C!FMul(s.p.focal, s.p.aspect_ratio), 1000 * z), C!FMul(s.p.cy, 1000 * z) + (500 * e.h), 0, 0, 1000>>, 30) THEN "calibration matrix in pixels"
     ELSE ""
Fwd(s, x) == C!Project(s.t, s.p, x[1], x[2], x[3])
Proj(s, e) ==
  IF \A k \in 1..Len(e.pts) : LET w == Fwd(s, e.pts[k]) IN Nr(w, e.one[k], e.tol) /\ Nr(w, e.many[k], e.tol)
  THEN "" ELSE "a point is not projected where the camera model says"
Unit(b) == (\A k \in 1..3 : Abs(b[k]) <= 1100000) /\ Abs((C!FMul(b[1], b[1]) + C!FMul(b[2], b[2]) + C!FMul(b[3], b[3])) - 1000000) <= 20
Bear(s, e) ==
  IF \E k \in 1..Len(e.pix) : ~Unit(e.one[k]) \/ ~Unit(e.many[k]) THEN "a bearing is not a unit vector"
  ELSE IF \E k \in 1..Len(e.pix) : ~Nr(Fwd(s, e.one[k]), e.pix[k], e.tol) \/ ~Nr(Fwd(s, e.many[k]), e.pix[k], e.tol) THEN "a bearing does not project back to its pixel"
  ELSE ""
(* pixels in thousandths; normalized coordinates in millionths *)
Pix(e) ==
  LET z == 1000 * Max2(e.w, e.h)
      ok(px, n) == /\ Abs((C!FMul(n[1], z) + 500 * (e.w - 1)) - px[1]) <= 5
                   /\ Abs((C!FMul(n[2], z) + 500 * (e.h - 1)) - px[2]) <= 5
  IN IF \A k \in 1..Len(e.px) : \A j \in 1..Len(e.nr[k]) : ok(e.px[k], e.nr[k][j])
     THEN (IF \A k \in 1..Len(e.px) : \A j \in 1..Len(e.back[k]) : Nr(e.back[k][j], e.px[k], 2) THEN "" ELSE "normalized coordinates do not convert back to the pixel")
     ELSE "pixel coordinates are not normalized by the longest side about the image centre"
Shot(s, e) ==
  LET pose == [n |-> e.pose.n, M |-> e.pose.M, t |-> e.pose.t, d |-> e.pose.d]
      cam(x) == LET im == P!Image(pose, x) IN [k \in 1..3 |-> (1000000 \div im.d) * im.v[k]]
      back(b) == P!App(pose.M, b)      \* world ray to camera frame (axis rotations: n = 1)
  IN IF \E k \in 1..Len(e.pts) : LET w == Fwd(s, cam(e.pts[k])) IN ~Nr(w, e.one[k], e.tol) \/ ~Nr(w, e.many[k], e.tol)
       THEN "a shot does not project a point through its pose and camera"
     ELSE IF \E k \in 1..Len(e.pix) : ~Unit(e.rays[k]) \/ ~Nr(Fwd(s, back(e.rays[k])), e.pix[k], e.tol) \/ ~Nr(e.rays[k], e.raysm[k], 2)
       THEN "a shot's bearing is not the camera's bearing rotated to the world"
     ELSE ""
Mapping(s, e) ==
  LET z == 1000 * Max2(e.w, e.h)
      f == [t |-> e.from.t, p |-> e.from.p]
      ok(k) == LET g == Fwd(f, e.rays[k])
                   want == <<C!FMul(g[1], z) + 500 * e.w, C!FMul(g[2], z) + 500 * e.h>>
               IN Nr(want, e.got[k], e.tol)
      ray(k) == LET n == Fwd(s, e.rays[k])
                IN Abs((C!FMul(n[1], z) + 500 * e.w) - 1000 * e.uv[k][1]) <= 600 /\ Abs((C!FMul(n[2], z) + 500 * e.h) - 1000 * e.uv[k][2]) <= 600
  IN IF \A k \in 1..Len(e.uv) : ray(k) /\ ok(k) THEN "" ELSE "the mapping between two cameras does not follow the rays"
V(s, why) == IF why = "" THEN Ok(s) ELSE No(why)
Has(s, names) == Set(names) \subseteq C!Names(s.t)
MStep(case, s, e) ==
  CASE e.op = "new" -> IF e.exc # "" THEN No("creating a camera failed: " \o e.exc)
                       ELSE LET s2 == [t |-> e.t, p |-> e.p] IN LET w == Reads(s2, e) IN IF w = "" THEN Ok(s2) ELSE No("new " \o e.t \o " camera: wrong " \o w)
    [] e.op = "set" ->
         LET can == Has(s, e.names)
             s2 == IF can THEN [s EXCEPT !.p = [n \in DOMAIN s.p |-> IF \E k \in 1..Len(e.names) : e.names[k] = n
                                                       THEN e.vals[CHOOSE k \in 1..Len(e.names) : e.names[k] = n] ELSE s.p[n]]] ELSE s
             w == Reads(s2, e)
         IN IF can /\ e.exc # "" THEN No("setting " \o e.names[1] \o " failed: " \o e.exc)
            ELSE IF ~can /\ e.exc = "" THEN No("a parameter the " \o s.t \o " model lacks was set")
            ELSE IF w # "" THEN No("after setting " \o e.names[1] \o ": wrong " \o w) ELSE Ok(s2)
    [] e.exc # "" -> No(e.op \o " failed: " \o e.exc)
    [] e.op = "project" -> V(s, Proj(s, e))
    [] e.op = "bearing" -> V(s, Bear(s, e))
    [] e.op = "pixels" -> V(s, Pix(e))
    [] e.op = "shot" -> V(s, Shot(s, e))
    [] e.op = "mapping" -> V(s, Mapping(s, e))
=============================================================================
