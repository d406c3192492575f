------------------------------ MODULE MonMotion ------------------------------
(* Motion estimation: results of robust estimators, solvers, two-view           *)
(* reconstruction, resection and alignment.  1e-6 fixed point.                  *)
EXTENDS TraceBase
F == INSTANCE FixedPoint
MStart(case) == 0
Near(a, b, t) == Abs(a - b) <= t
Dot(u, v) == F!FMul(u[1], v[1]) + F!FMul(u[2], v[2]) + F!FMul(u[3], v[3])
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Cross(u, v) == <<F!FMul(u[2], v[3]) - F!FMul(u[3], v[2]), F!FMul(u[3], v[1]) - F!FMul(u[1], v[3]), F!FMul(u[1], v[2]) - F!FMul(u[2], v[1])>>
Big(u) == Abs(u[1]) > 100000000 \/ Abs(u[2]) > 100000000 \/ Abs(u[3]) > 100000000
Norm1(u) == F!Hyp(F!Hyp(u[1], u[2]), u[3])
Norm(u) == IF Big(u) THEN 20 * Norm1(<<u[1] \div 20, u[2] \div 20, u[3] \div 20>>) ELSE Norm1(u)
Unit1(u) == LET n == Norm1(u) IN IF n = 0 THEN <<0, 0, 0>> ELSE <<F!FDiv(u[1], n), F!FDiv(u[2], n), F!FDiv(u[3], n)>>
Unit(u) == IF Big(u) THEN Unit1(<<u[1] \div 20, u[2] \div 20, u[3] \div 20>>) ELSE Unit1(u)
Angle(u, v) == LET w == Unit(u) IN F!FAtan2(Norm(Cross(w, v)), Dot(w, v))
App(A, v) == <<Dot(A[1], v), Dot(A[2], v), Dot(A[3], v)>>
Tr(A, v) == [i \in 1..3 |-> F!FMul(A[1][i], v[1]) + F!FMul(A[2][i], v[2]) + F!FMul(A[3][i], v[3])]
Col(A, j) == <<A[1][j], A[2][j], A[3][j]>>
NearM(A, B, t) == Len(A) = Len(B) /\ \A i \in 1..Len(B) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(B[i]) : Near(A[i][j], B[i][j], t)
Rigid(A, t) == \A i \in 1..3 : \A j \in 1..i : Near(Dot(A[i], A[j]), IF i = j THEN 1000000 ELSE 0, t)
Proper(A) == Rigid(A, 20) /\ Near(Dot(Cross(A[1], A[2]), A[3]), 1000000, 30)
Finite(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : Abs(A[i][j]) < 1900000000
Large(A) == \E i \in 1..Len(A) : \E j \in 1..Len(A[i]) : Abs(A[i][j]) > 30000000
Mid(o, a, c, b, x) == LET u == Sub(x, o)
                          v == Sub(x, c)
                          au == Dot(a, u)
                          bv == Dot(b, v)
                          tol == 40 + ((Abs(u[1]) + Abs(u[2]) + Abs(u[3])) \div 100000)
                      IN \A i \in 1..3 : Near(u[i] - F!FMul(a[i], au) + v[i] - F!FMul(b[i], bv), 0, tol)
(* two-ray residual: mean of the squared angles; <<known, a, b>> *)
Rays(A, t, a, b, m) == LET c == [i \in 1..3 |-> -Tr(A, t)[i]]
                        IN IF m.ok = 0 THEN <<0, 0, 0>>
                          ELSE <<IF Mid(<<0, 0, 0>>, a, c, Tr(A, b), m.x) THEN 1 ELSE 2, Angle(m.x, a), Angle(Add(App(A, m.x), t), b)>>
(* residual of sample k: must be an inlier (1), may not be (0), either (2) *)
Side(v, thr, m) == IF v < thr - m THEN 1 ELSE IF v > thr + m THEN 0 ELSE 2
M == 30
Clip(v) == Min2(Max2(v, 0), 30000)
Res(e, k) ==
  LET a == e.a[k]
      b == e.b[k]
      Z == e.model
  IN CASE e.name = "line" -> Abs(a[2] - (F!FMul(Z[1][1], a[1]) + Z[1][2]))
     [] e.name = "known" -> Angle(Add(b, Z[1]), a)
     [] e.name = "absolute" -> Angle(Add(App(Z, b), Col(Z, 4)), a)
     [] e.name = "rotation" -> Angle(App(Z, a), b)
     [] e.name = "essential" -> Abs(Dot(b, App(Z, a)))
     [] e.name = "similarity" -> Norm(Sub(b, Add(App(Z, a), Col(Z, 4))))
     [] OTHER -> 0
State(e, k) ==
  IF e.name = "relative"
  THEN LET r == Rays(e.model, Col(e.model, 4), e.a[k], e.b[k], e.mid[k])
       IN IF r[1] # 1 THEN 2
          ELSE LET s(d) == (Clip(r[2] + d) * Clip(r[2] + d)) + (Clip(r[3] + d) * Clip(r[3] + d))
                   t2 == 2 * e.thr * e.thr
               IN IF s(M) < t2 /\ r[2] < 30000 /\ r[3] < 30000 THEN 1 ELSE IF s(-M) > t2 THEN 0 ELSE 2
  ELSE IF e.name = "essential" THEN Side(Res(e, k), F!FSin(e.thr), 20)
  ELSE Side(Res(e, k), e.thr, IF e.name \in {"line", "similarity"} THEN 100 ELSE M)
Truth(e) == CASE e.name \in {"essential", "relative"} -> TRUE
            [] e.name = "similarity" -> NearM(SubSeq(e.model, 1, 3), SubSeq(e.truth, 1, 3), 2000)
            [] OTHER -> NearM(e.model, e.truth, 2000 + (4 * e.thr))
Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)
Sq(v) == F!FMul(Min2(v, 40000000), Min2(v, 40000000))
Robust(e) ==
  LET n == Len(e.a)
      st == [k \in 1..n |-> State(e, k)]
      In == Set(e.inl)
      res == [k \in 1..n |-> Res(e, k)]
      med == Sorted(res)[(n \div 2) + 1]
      thr == F!FMul(e.thr, F!FMul(1482600, med))
  IN IF ~(In \subseteq 1..n) \/ Cardinality(In) # Len(e.inl) THEN No("the inliers are not samples")
     ELSE IF e.score = 0 /\ e.type = "RANSAC" THEN (IF e.inl # <<>> THEN No("a score of zero with inliers") ELSE IF e.must = 1 THEN No("the consistent majority was not found: " \o e.name) ELSE Ok(0))
     ELSE IF ~Finite(e.model) \/ Large(e.model) THEN (IF e.must = 1 THEN No("the consistent majority was not found: " \o e.name) ELSE Ok(0))
     ELSE IF e.type = "LMedS"
          THEN (IF e.name \in {"line", "similarity"} /\ ((\E k \in 1..n : (res[k] > thr + 400 /\ k \in In) \/ (res[k] < thr - 400 /\ k \notin In)) \/ ~Near(e.score, med, 100)) THEN No("the inliers are not those near the median: " \o e.name)
                ELSE Ok(0))
     ELSE IF \E k \in 1..n : (st[k] = 1 /\ k \notin In) \/ (st[k] = 0 /\ k \in In) THEN No("the inliers are not the samples below the threshold: " \o e.name)
     ELSE IF e.type = "RANSAC" /\ e.score # Cardinality(In) THEN No("the score is not the number of inliers")
     ELSE IF e.type = "MSAC" /\ e.name \in {"line", "similarity"} /\ ~Near(e.score, Total([k \in 1..n |-> IF k \in In THEN Sq(res[k]) ELSE Sq(e.thr)]), 50 * n + 10 + (Total([k \in 1..n |-> IF k \in In THEN res[k] ELSE 0]) \div 5000)) THEN No("the score is not the truncated sum of squares")
     ELSE IF e.must = 1 /\ e.type = "RANSAC" /\ Len(e.inl) < Len(e.ins) THEN No("the consistent majority was not found: " \o e.name)
     ELSE IF e.must = 1 /\ e.type = "RANSAC" /\ Set(e.ins) = In /\ ~Truth(e) THEN No("exact samples give another model: " \o e.name)
     ELSE Ok(0)
(* the most points within 0.3 of a line through two of the points (points are integers) *)
Grid(e) ==
  LET P == e.pts
      n == Len(P)
      on(i, j) == Cardinality({k \in 1..n : LET dx == P[j][1] - P[i][1]
                                                 v == ((P[k][2] - P[i][2]) * dx) - ((P[j][2] - P[i][2]) * (P[k][1] - P[i][1]))
                                             IN 10 * Abs(v) < 3 * Abs(dx)})
      need == {on(x[1], x[2]) : x \in {y \in (1..n) \X (1..n) : P[y[1]][1] # P[y[2]][1]}}
  IN IF (\E m \in need : Len(e.inl) < m) \/ e.most \notin need THEN No("a line with more points exists") ELSE Robust(e)
Frob(A) == Norm(<<Norm(A[1]), Norm(A[2]), Norm(A[3])>>)
One(A) == LET n == Frob(A) IN [i \in 1..3 |-> [j \in 1..3 |-> F!FDiv(A[i][j], n)]]
Neg(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> -A[i][j]]]
Algebra(Z, x) == [k \in 1..Len(x.a) |-> Abs(Dot(x.b[k], Cross(Unit(Col(Z, 4)), App(Z, x.a[k]))))]
Top(s) == CHOOSE v \in Set(s) : \A w \in Set(s) : w <= v
Hit(e, x) == CASE e.name \in {"e5", "en"} -> \E k \in 1..Len(x.out) : NearM(One(x.out[k]), One(x.truth), 200) \/ NearM(One(x.out[k]), One(Neg(x.truth)), 200)
             [] e.name = "refine" -> Top(Algebra(x.out[1], x)) <= (4 * Top(Algebra(x.start, x))) + 50
             [] OTHER -> \E k \in 1..Len(x.out) : NearM(x.out[k], x.truth, 200)
Wrong(e, x) == CASE e.name \in {"e5", "en"} -> \E k \in 1..Len(x.out) : \E i \in 1..Len(x.a) : Abs(Dot(x.b[i], App(x.out[k], x.a[i]))) > 50
               [] e.name \in {"p3p", "pnp", "rot", "decompose", "refine"} -> \E k \in 1..Len(x.out) : Finite(x.out[k]) /\ ~Proper([i \in 1..3 |-> SubSeq(x.out[k][i], 1, 3)])
               [] OTHER -> FALSE
Solvers(e) == IF Len(e.items) # e.total THEN No("driver: problems are missing")
              ELSE IF \E k \in 1..e.total : Wrong(e, e.items[k]) THEN No("an answer of " \o e.name \o " contradicts its data")
              ELSE IF 100 * Cardinality({k \in 1..e.total : Hit(e, e.items[k])}) < (IF e.name = "decompose" THEN 100 ELSE 97) * e.total THEN No(e.name \o " misses the solution of exact problems")
              ELSE Ok(0)
Rates(e) == IF 100 * Cardinality({k \in 1..e.total : Len(e.items[k].ins) <= Len(e.items[k].inl)}) < 95 * e.total THEN No("robust estimation misses consistent majorities: " \o e.name) ELSE Ok(0)
(* chord distances below the threshold in both images *)
Both(A, t, a, b, m, thr) == LET r == Rays(A, t, a, b, m)
                            IN IF r[1] # 1 THEN 2
                               ELSE IF Side(r[2], thr, M) = 1 /\ Side(r[3], thr, M) = 1 THEN 1
                               ELSE IF Side(r[2], thr, M) = 0 \/ Side(r[3], thr, M) = 0 THEN 0 ELSE 2
Two(e) ==
  LET n == Len(e.a)
      In == Set(e.inl)
      st(k) == IF e.how = "rotation" THEN Side(Angle(App(e.R, e.a[k]), e.b[k]), e.thr, M)
               ELSE Both(e.R, e.t, e.a[k], e.b[k], e.mid[k], e.thr)
      sts == [k \in 1..n |-> st(k)]
  IN IF e.ok = 0 THEN (IF e.inl # <<>> THEN No("inliers without a motion")
                       ELSE IF e.scene = "junk" THEN Ok(0)
                       ELSE IF e.rev = 1 THEN Ok(0)
                       ELSE No("no motion found for " \o e.scene))
     ELSE IF ~Proper(e.R) THEN No("the rotation is not a rotation")
     ELSE IF Large(<<e.t>>) THEN Ok(0)
     ELSE IF e.how = "rotation" /\ \E k \in 1..n : (sts[k] = 1 /\ k \notin In) \/ (sts[k] = 0 /\ k \in In) THEN No("the inliers do not fit the rotation")
     ELSE IF e.how # "rotation" /\ \E k \in 1..n : (sts[k] = 1 /\ k \notin In) \/ (sts[k] = 0 /\ k \in In) THEN No("the inliers are not the points the motion explains")
     ELSE IF e.how = "general" /\ ((e.n5 > e.np /\ e.method # "5_point") \/ (e.n5 < e.np /\ e.method # "plane_based") \/ Len(e.inl) # Max2(e.n5, e.np)) THEN No("the method with fewer inliers was chosen")
     ELSE IF e.scene = "junk" THEN Ok(0)
     ELSE IF Len(e.inl) < Len(e.ins) THEN No("consistent points are missed: " \o e.scene \o " " \o e.how)
     ELSE IF (e.scene = "rotation" /\ ~NearM(e.R, e.truthR, 1000 + e.thr)) \/ (e.scene = "general" /\ e.thr < 5000 /\ Len(e.ins) >= 20 /\ ~NearM(e.R, e.truthR, 40000 + (10 * e.thr))) THEN No("another rotation was found: " \o e.scene)
     ELSE IF e.scene = "general" /\ e.thr < 5000 /\ Len(e.ins) >= 20 /\ ~NearM(<<e.t1>>, <<e.trutht>>, 150000) THEN No("another translation was found")
     ELSE Ok(0)
Bear(e) ==
  LET n == Len(e.a)
      In == Set(e.inl)
      st(k) == Both(e.R, e.t, e.a[k], e.b[k], e.mid[k], e.thr)
      sn(x, y) == Abs(Dot(Unit(Cross(e.c, x)), y))
      w(i, j) == (sn(e.a[i], Tr(e.R, e.b[j])) + sn(Tr(e.R, e.b[j]), e.a[i])) \div 2
  IN IF \E k \in 1..n : (st(k) = 1 /\ k \notin In) \/ (st(k) = 0 /\ k \in In) THEN No("the inliers are not the points the motion explains")
     ELSE IF e.epi # <<>> /\ \E i \in 1..n : \E j \in 1..n : LET s == Side(w(i, j), e.thr, M) IN (s = 1 /\ e.epi[i][j] = 0) \/ (s = 0 /\ e.epi[i][j] = 1) THEN No("the epipolar inliers are wrong")
     ELSE Ok(0)
Homography(e) ==
  LET back(s) == [i \in 1..3 |-> [j \in 1..3 |-> F!FMul(s.d, s.R[i][j]) - F!FMul(s.t[i], s.n[j])]]
      neg == [i \in 1..3 |-> [j \in 1..3 |-> -e.H[i][j]]]
  IN IF e.close = 1 THEN Ok(0)
     ELSE IF e.none = 1 THEN No("no motions for a homography")
     ELSE IF Len(e.sols) # 8 THEN No("a homography has eight motions")
     ELSE IF \E k \in 1..8 : ~Proper(e.sols[k].R) THEN No("a motion of a homography is not a rotation")
     ELSE IF \E k \in 1..8 : ~NearM(back(e.sols[k]), e.H, 60) /\ ~NearM(back(e.sols[k]), neg, 60) THEN No("a motion does not give the homography back")
     ELSE IF ~\E k \in 1..8 : NearM(e.sols[k].R, e.truth, 200) THEN No("the motion of the homography is missing")
     ELSE Ok(0)
Resect(e) ==
  LET rows == SelectSeq(e.rows, LAMBDA r : r.there = 1)
      n == Len(rows)
      st(r) == Side(Angle(Add(App(e.R, r.X), e.t), r.b), e.thr, M)
      good == Cardinality({k \in 1..n : rows[k].bad = 0})
  IN IF e.common # n THEN No("the common points are miscounted")
     ELSE IF e.old = 0 THEN No("resection changed something else")
     ELSE IF e.ok = 0 THEN (IF e.added # <<>> \/ e.shots # <<"s0.jpg", "s1.jpg">> THEN No("a failed resection added images")
                            ELSE IF n >= 6 /\ good >= e.min /\ 10 * good >= 6 * n THEN No("a resection failed without reason")
                            ELSE Ok(0))
     ELSE IF n < 5 \/ e.inliers < e.min THEN No("a resection with too few points")
     ELSE IF e.added # e.want \/ Set(e.shots) # {"s0.jpg", "s1.jpg"} \cup Set(e.want) THEN No("the images added are wrong")
     ELSE IF e.cam # e.cam0 THEN No("the added image has another camera")
     ELSE IF \E k \in 1..n : (st(rows[k]) = 1 /\ rows[k].id \notin Set(e.obs)) \/ (e.rig = 0 /\ st(rows[k]) = 0 /\ rows[k].id \in Set(e.obs)) THEN No("the observations added are not the inliers")
     ELSE IF e.rig = 0 /\ Len(e.obs) # e.inliers THEN No("the inliers are miscounted")
     ELSE IF 10 * good >= 6 * n /\ good >= 6 /\ (~NearM(e.R, e.truthR, 1500 + e.thr) \/ ~NearM(<<e.t>>, <<e.trutht>>, 3000 + (8 * e.thr)) \/ e.far = 1) THEN No("the resected pose is wrong")
     ELSE Ok(0)
Common(e) ==
  LET has(r, t) == \E k \in 1..Len(e.obs) : e.obs[k].r = r /\ e.obs[k].im = "" /\ e.obs[k].t = t
      views(r) == {<<e.obs[k].im, e.obs[k].f, e.obs[k].t>> : k \in {j \in 1..Len(e.obs) : e.obs[j].r = r /\ e.obs[j].im # "" /\ e.obs[j].im \in Set(e.shots[1]) \cap Set(e.shots[2]) /\ has(r, e.obs[j].t)}}
      want == {<<x[1][3], x[2][3]>> : x \in {y \in views(1) \X views(2) : y[1][1] = y[2][1] /\ y[1][2] = y[2][2]}}
      got == {<<e.got[k][1], e.got[k][2]>> : k \in 1..Len(e.got)}
      dist(p) == Norm(Sub(p.y, Add(App(e.T, p.x), Col(e.T, 4))))
      in(p) == \E k \in 1..Len(e.inl) : e.inl[k] = p.p
      clean(p) == ~\E k \in 1..Len(e.obs) : e.obs[k].f = 1000 /\ ((e.obs[k].r = 1 /\ e.obs[k].t = p.p[1]) \/ (e.obs[k].r = 2 /\ e.obs[k].t = p.p[2]))
      ncl == Cardinality({k \in 1..Len(e.pts) : clean(e.pts[k])})
  IN IF got # want \/ Len(e.got) # Cardinality(want) THEN No("the common tracks are wrong")
     ELSE IF e.ok = 1 /\ Len(e.got) <= 6 THEN No("an alignment from too few tracks")
     ELSE IF e.ok = 0 THEN (IF Len(e.got) > 6 /\ 10 * ncl >= 5 * Len(e.got) THEN No("an alignment was not found") ELSE IF e.inl # <<>> THEN No("inliers without alignment") ELSE Ok(0))
     ELSE IF Large(e.T) THEN Ok(0)
     ELSE IF \E k \in 1..Len(e.pts) : LET s == Side(dist(e.pts[k]), e.thr, 600) IN (s = 1 /\ ~in(e.pts[k])) \/ (s = 0 /\ in(e.pts[k])) THEN No("the inliers are not the points the alignment explains")
     ELSE IF 10 * ncl >= 6 * Len(e.got) /\ ncl >= 6 /\ ~NearM(SubSeq(e.T, 1, 3), SubSeq(e.truth, 1, 3), 3000) THEN No("another alignment was found")
     ELSE Ok(0)
MStep(case, s, e) ==
  IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE CASE e.op = "ransac" -> Robust(e) [] e.op = "grid" -> Grid(e) [] e.op = "solvers" -> Solvers(e) [] e.op = "rates" -> Rates(e) [] e.op = "two" -> Two(e) [] e.op = "bear" -> Bear(e)
       [] e.op = "homography" -> Homography(e) [] e.op = "resect" -> Resect(e) [] e.op = "common" -> Common(e)
=============================================================================
