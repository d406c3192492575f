------------------------------- MODULE MonTri --------------------------------
(* Triangulation, re-triangulation and removal of outliers.  1e-6 fixed point. *)
EXTENDS TraceBase
F == INSTANCE FixedPoint
MStart(case) == 0
Near(a, b, t) == Abs(a - b) <= t
Near3(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t) /\ Near(a[3], b[3], t)
Dot(u, v) == F!FMul(u[1], v[1]) + F!FMul(u[2], v[2]) + F!FMul(u[3], v[3])
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Sc(s, x) == <<F!FMul(s, x[1]), F!FMul(s, x[2]), F!FMul(s, x[3])>>
Cross(u, v) == <<F!FMul(u[2], v[3]) - F!FMul(u[3], v[2]), F!FMul(u[3], v[1]) - F!FMul(u[1], v[3]), F!FMul(u[1], v[2]) - F!FMul(u[2], v[1])>>
Norm(u) == F!Hyp(F!Hyp(u[1], u[2]), u[3])
Angle(u, v) == F!FAtan2(Norm(Cross(u, v)), Dot(u, v))
(* rays: position of the camera and direction in the world *)
Ray(r) == LET w(i) == F!FMul(r.R[1][i], r.b[1]) + F!FMul(r.R[2][i], r.b[2]) + F!FMul(r.R[3][i], r.b[3])
          IN [c |-> r.o, d |-> IF r.R = <<>> THEN r.b ELSE <<w(1), w(2), w(3)>>]
Rays(rows) == [k \in 1..Len(rows) |-> Ray(rows[k])]
M == 30
WideSure(rs, e) == \E i \in 1..Len(rs) : \E j \in 1..(i - 1) : LET a == Angle(rs[i].d, rs[j].d) IN a > e.ang + M /\ a < F!PI - (e.ang + M)
WideMay(rs, e) == \E i \in 1..Len(rs) : \E j \in 1..(i - 1) : LET a == Angle(rs[i].d, rs[j].d) IN a > e.ang - M /\ a < F!PI - (e.ang - M)
AllWide(rs, e) == \A i \in 1..Len(rs) : \A j \in 1..(i - 1) : LET a == Angle(rs[i].d, rs[j].d) IN a > e.ang + M /\ a < F!PI - (e.ang + M)
Err(r, x) == Angle(Sub(x, r.c), r.d)
Depth(r, x) == Dot(Sub(x, r.c), r.d)
Fits(r, x, e) == Err(r, x) < e.thr + M /\ Depth(r, x) > e.dep - M
FitsSure(r, x, e) == Err(r, x) < e.thr - M /\ Depth(r, x) > e.dep + M
(* the point closest to the rays *)
Closest(rs, x) == LET g(i) == Total([k \in 1..Len(rs) |-> LET u == Sub(x, rs[k].c) IN u[i] - F!FMul(rs[k].d[i], Dot(u, rs[k].d))])
                  IN \A i \in 1..3 : Near(g(i), 0, 25 * Len(rs) + 20 + Total([k \in 1..Len(rs) |-> LET u == Sub(x, rs[k].c) IN (Abs(u[1]) + Abs(u[2]) + Abs(u[3])) \div 250000]))
Cost(rs, x) == Total([k \in 1..Len(rs) |-> LET u == Sub(x, rs[k].c)
                                               n == Norm(u)
                                               v == Sub(<<F!FDiv(u[1], n), F!FDiv(u[2], n), F!FDiv(u[3], n)>>, rs[k].d)
                                           IN Dot(Sc(31622777, v), Sc(31622777, v)) \div 1000])
Good(rs, x, e) == WideMay(rs, e) /\ \A k \in 1..Len(rs) : Fits(rs[k], x, e)
Sure(rs, x, e) == WideSure(rs, e) /\ \A k \in 1..Len(rs) : FitsSure(rs[k], x, e)
Point(e) ==
  LET rs == Rays(e.rays) IN
  IF e.ok = 1 THEN (IF ~WideMay(rs, e) THEN No("a point was accepted without parallax")
                    ELSE IF ~Good(rs, e.x, e) THEN No("a point was accepted against its observations")
                    ELSE IF e.op = "mid" /\ ~Closest(rs, e.x) THEN No("the point is not the closest to its rays")
                    ELSE IF e.exact = 1 /\ ~Near3(e.x, e.truth, e.tol) THEN No("exact observations give another point")
                    ELSE Ok(0))
  ELSE IF e.op = "dlt" /\ e.exact = 0 THEN Ok(0)
  ELSE IF e.op = "mid" /\ WideMay(rs, e) /\ ~Closest(rs, e.best) THEN No("driver: the reference point is wrong")
  ELSE IF Sure(rs, e.best, e) THEN No("a good point was refused")
  ELSE Ok(0)
Two(e) ==
  LET bad(p) == LET rs == Rays(p.rays)
                    a == Angle(rs[1].d, rs[2].d)
                IN IF p.ok = 1 THEN ~Closest(rs, p.x) ELSE a > 200 /\ a < F!PI - 200
      par(p) == p.ok = 1 /\ p.par = 1
  IN IF \E k \in 1..Len(e.pairs) : par(e.pairs[k]) THEN No("parallel rays gave a point")
     ELSE IF \E k \in 1..Len(e.pairs) : bad(e.pairs[k]) THEN No("the point is not the middle of its two rays")
     ELSE Ok(0)
(* epipolar angle: both rays should lie in a plane with the baseline *)
Unit(u) == LET n == Norm(u) IN <<F!FDiv(u[1], n), F!FDiv(u[2], n), F!FDiv(u[3], n)>>
Epi(e) ==
  LET t == Unit(e.t)
      sn(a, b) == Abs(Dot(Unit(Cross(t, a)), b))
      want(i, j) == (sn(e.b1[i], e.b2[j]) + sn(e.b2[j], e.b1[i])) \div 2
  IN IF \E i \in 1..Len(e.b1) : \E j \in 1..Len(e.b2) : ~Near(F!FSin(e.got[i][j]), want(i, j), 25) \/ e.got[i][j] < -5 \/ e.got[i][j] > F!HalfPI + 5
     THEN No("the epipolar angle is wrong") ELSE Ok(0)
Refine(e) ==
  LET rs == Rays(e.rays) IN
  IF Cost(rs, e.x) > Cost(rs, e.start) + 40 THEN No("refining a point made it worse")
  ELSE IF e.exact = 1 /\ ~Near3(e.x, e.truth, e.tol) THEN No("refining does not find the exact point")
  ELSE Ok(0)
(* tracks of a reconstruction *)
Track(e, t) ==
  LET rs == Rays(t.rays)
      n == Len(rs)
      in == {k \in 1..n : t.rays[k].id \in Set(t.obs)}
  IN IF t.before = 1 /\ e.mode = "shots"
     THEN IF t.kept = 1 THEN "" ELSE "an existing point changed"
     ELSE IF t.asked = 0 /\ t.ok = 1 THEN "a track that is not seen got a point"
     ELSE IF t.asked = 0 THEN ""
     ELSE IF t.ok = 1 /\ n < 2 THEN "a point was made from one observation"
     ELSE IF t.ok = 1 /\ ~(Set(t.obs) \subseteq {t.rays[k].id : k \in 1..n}) THEN "a point has observations it should not have"
     ELSE IF t.ok = 1 /\ t.same = 0 THEN "observations were changed"
     ELSE IF n < 2 THEN ""
     ELSE IF e.type = "ROBUST"
          THEN IF t.ok = 1 THEN (IF Cardinality(in) < 2 THEN "a point has fewer than two observations"
                                 ELSE IF ~WideMay(rs, e) THEN "a point was accepted without parallax"
                                 ELSE IF \E k \in 1..n : (k \in in /\ Err(rs[k], t.x) > e.thr + M) \/ (k \notin in /\ Err(rs[k], t.x) < e.thr - M) THEN "the observations of a point are not its inliers"
                                 ELSE IF t.exact = 1 /\ (~Near3(t.x, t.truth, t.tol) \/ Cardinality(in) < n) THEN "exact observations give another point"
                                 ELSE "")
               ELSE IF t.exact = 1 /\ AllWide(rs, e) /\ \A k \in 1..n : Depth(rs[k], t.truth) > e.dep + M THEN "a good track got no point"
               ELSE ""
     ELSE IF t.ok = 1 THEN (IF Cardinality(in) # n THEN "a point lacks observations"
                            ELSE IF ~WideMay(rs, e) THEN "a point was accepted without parallax"
                            ELSE IF e.type = "FULL" /\ ~Closest(rs, t.best) THEN "driver: the reference point is wrong"
                            ELSE IF e.type = "FULL" /\ ~Good(rs, t.best, e) THEN "a point was accepted against its observations"
                            ELSE IF e.type \in {"FULL", "DLT"} /\ Cost(rs, t.x) > Cost(rs, t.best) + 40 THEN "the refined point is worse"
                            ELSE IF t.exact = 1 /\ ~Near3(t.x, t.truth, t.tol) THEN "exact observations give another point"
                            ELSE "")
     ELSE IF e.type = "DLT" THEN (IF t.exact = 1 /\ Sure(rs, t.truth, e) THEN "a good track got no point" ELSE "")
     ELSE IF WideMay(rs, e) /\ Closest(rs, t.best) /\ Sure(rs, t.best, e) THEN "a good track got no point"
     ELSE ""
Scene(e) == LET bad == SelectSeq([k \in 1..Len(e.tracks) |-> Track(e, e.tracks[k])], LAMBDA w : w # "")
            IN IF bad # <<>> THEN No(bad[1])
               ELSE IF e.count # Cardinality({k \in 1..Len(e.tracks) : e.tracks[k].ok = 1}) THEN No("there are other points")
               ELSE Ok(0)
(* three observations of which one is wrong: the two others are found nearly always *)
Rate(e) == IF e.wrong > 0 THEN No("a robust point is wrong")
           ELSE IF 10 * e.missed > e.total THEN No("robust triangulation misses the consistent pair of three observations")
           ELSE Ok(0)
(* outliers *)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Median(s) == LET v == Sorted(s)
                 n == Len(s)
             IN IF n % 2 = 1 THEN v[(n + 1) \div 2] ELSE (v[n \div 2] + v[(n \div 2) + 1]) \div 2
Len3(v) == F!Hyp(F!Hyp(v[1], v[2]), v[3])
Outliers(e) ==
  LET errs == FlattenSeq([k \in 1..Len(e.points) |-> [j \in 1..Len(e.points[k].obs) |-> e.points[k].obs[j].err]])
      med == <<Median([k \in 1..Len(errs) |-> errs[k][1]]), Median([k \in 1..Len(errs) |-> errs[k][2]]), Median([k \in 1..Len(errs) |-> errs[k][3]])>>
      dev == F!FMul(1486000, Median([k \in 1..Len(errs) |-> Len3(Sub(errs[k], med))]))
      sum == <<med[1] + dev, med[2] + dev, IF e.dim = 3 THEN med[3] + dev ELSE 0>>
      thr == IF e.type = "FIXED" THEN e.thr ELSE IF e.type = "AUTO" THEN F!FMul(e.ratio, Len3(sum)) ELSE 1000000
      gone(p) == {o.s : o \in {p.obs[j] : j \in 1..Len(p.obs)}} \ Set(p.left)
      bad(p) == IF p.listed = 0 THEN (IF p.there = 0 \/ gone(p) # {} THEN "a point that was not to be processed changed" ELSE "")
                ELSE LET out(m) == {o.s : o \in {q \in Set(p.obs) : Len3(q.err) > thr + m}}
                         must == out(5)
                         may == out(-5)
                     IN IF p.there = 1 THEN (IF ~(must \subseteq gone(p)) THEN "an observation with a large error was kept"
                                             ELSE IF ~(gone(p) \subseteq may) THEN "an observation with a small error was removed"
                                             ELSE IF gone(p) # {} /\ Len(p.left) < 2 THEN "a point with one observation was kept"
                                             ELSE "")
                        ELSE IF Len(p.obs) - Cardinality(may) >= 2 \/ may = {} THEN "a point was removed without reason"
                        ELSE ""
      w == SelectSeq([k \in 1..Len(e.points) |-> bad(e.points[k])], LAMBDA s : s # "")
      all(m) == Total([k \in 1..Len(e.points) |-> IF e.points[k].listed = 0 THEN 0 ELSE Cardinality({j \in 1..Len(e.points[k].obs) : Len3(e.points[k].obs[j].err) > thr + m})])
  IN IF w # <<>> THEN No(w[1])
     ELSE IF e.count < all(5) \/ e.count > all(-5) THEN No("the number of removed observations is wrong")
     ELSE IF e.rest = 0 THEN No("something else of the map changed")
     ELSE Ok(0)
MStep(case, s, e) ==
  IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE CASE e.op \in {"mid", "dlt"} -> Point(e) [] e.op = "two" -> Two(e) [] e.op = "epi" -> Epi(e) [] e.op = "refine" -> Refine(e)
       [] e.op = "scene" -> Scene(e) [] e.op = "rate" -> Rate(e) [] e.op = "outliers" -> Outliers(e)
=============================================================================
