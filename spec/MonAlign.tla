------------------------------ MODULE MonAlign ------------------------------
(* Alignment of a reconstruction to positions measured by GPS and on control  *)
(* points.  Numbers are 1e-6 fixed point; matrices are rows of three.         *)
EXTENDS TraceBase
F == INSTANCE FixedPoint
MStart(case) == 0
Near(a, b, t) == Abs(a - b) <= t
Near3(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t) /\ Near(a[3], b[3], t)
Dot(u, v) == F!FMul(u[1], v[1]) + F!FMul(u[2], v[2]) + F!FMul(u[3], v[3])
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
App(A, x) == <<Dot(A[1], x), Dot(A[2], x), Dot(A[3], x)>>
Sc(s, x) == <<F!FMul(s, x[1]), F!FMul(s, x[2]), F!FMul(s, x[3])>>
Sim(S, x) == Add(Sc(S.s, App(S.A, x)), S.b)
Cross(u, v) == <<F!FMul(u[2], v[3]) - F!FMul(u[3], v[2]), F!FMul(u[3], v[1]) - F!FMul(u[1], v[3]), F!FMul(u[1], v[2]) - F!FMul(u[2], v[1])>>
IsRot(A) == /\ \A i \in 1..3 : \A j \in 1..3 : Near(Dot(A[i], A[j]), IF i = j THEN 1000000 ELSE 0, 12)
            /\ Near3(Cross(A[1], A[2]), A[3], 12)
(* a row of pose: rotation times the transpose of A *)
Turned(R, A) == [i \in 1..3 |-> App(A, R[i])]
Tol(e) == e.tol
(* everything was moved by one and the same similarity *)
Moved(e, S) ==
  IF ~IsRot(S.A) THEN "the similarity has no rotation"
  ELSE IF \E k \in 1..Len(e.pts) : ~Near3(Sim(S, e.pts[k][1]), e.pts[k][2], Tol(e)) THEN "a point is not moved by the similarity"
  ELSE IF \E k \in 1..Len(e.shots) : ~Near3(Sim(S, e.shots[k].o[1]), e.shots[k].o[2], Tol(e)) THEN "a camera is not moved by the similarity"
  ELSE IF \E k \in 1..Len(e.shots) : \E i \in 1..3 : ~Near3(App(S.A, e.shots[k].R[1][i]), e.shots[k].R[2][i], 40) THEN "a camera is not turned by the similarity"
  ELSE IF \E k \in 1..Len(e.proj) : ~(Near(e.proj[k][1], e.proj[k][3], 60) /\ Near(e.proj[k][2], e.proj[k][4], 60)) THEN "images change with the alignment"
  ELSE ""
Apply(e) == LET m == Moved(e, e.S) IN IF m # "" THEN No(m) ELSE Ok(0)
(* --------------------------- constraints of the alignment ---------------- *)
Mean(rows) == LET n == Len(rows)
                  c(i) == Total([k \in 1..n |-> rows[k][i] \div n])
              IN <<c(1), c(2), c(3)>>
GpsRows(e) == IF e.usegps = 0 THEN <<>>
              ELSE LET use == SelectSeq(e.insts, LAMBDA i : Len(i.gps) > 0)
                   IN [k \in 1..Len(use) |-> [x |-> use[k].o, y |-> use[k].o2, m |-> Mean(use[k].gps)]]
GcpRows(e) == IF e.usegcp = 0 THEN <<>> ELSE [k \in 1..Len(e.gcp) |-> [x |-> e.gcp[k].o, y |-> Sim(e.S, e.gcp[k].o), m |-> e.gcp[k].m]]
Known(e) == GcpRows(e) \o GpsRows(e)
Len2(u) == Abs(u[1]) + Abs(u[2]) + Abs(u[3])
Centi(u) == <<u[1] \div 100, u[2] \div 100, u[3] \div 100>>
OnLine(rows) == LET d(k) == Centi(Sub(rows[k].m, rows[1].m))
                IN \A i \in 1..Len(rows) : \A j \in 1..Len(rows) :
                     LET u == d(i) v == d(j) IN Len2(Cross(u, v)) <= 10 + (F!FMul(Len2(u), Len2(v)) \div 1000)
Method(e) == IF e.method # "auto" THEN e.method
             ELSE IF Len(Known(e)) < 3 \/ OnLine(Known(e)) THEN "orientation_prior" ELSE "naive"
Fits(rows, t) == \A k \in 1..Len(rows) : Near3(rows[k].y, rows[k].m, t)
(* conditions of the least squares rotation: centroids match and the correlation is symmetric *)
SymFit(rows, S) ==
  LET n == Len(rows)
      mx == Mean([k \in 1..n |-> rows[k].y])
      mm == Mean([k \in 1..n |-> rows[k].m])
      \* in hundreds so that the sums of products stay small
      u(k) == Sub(rows[k].y, mx)
      v(k) == Sub(rows[k].m, mm)
      C(i, j) == Total([k \in 1..n |-> F!FMul(v(k)[i] \div 100, u(k)[j])])
      size == Max2(1, Total([k \in 1..n |-> F!FMul(Len2(v(k)) \div 100, Len2(u(k)))]))
  IN /\ Near3(mx, mm, 400)
     /\ \A i \in 1..3 : \A j \in 1..3 : Near(C(i, j), C(j, i), 60 + (size \div 4000))
     /\ C(1, 1) + C(2, 2) + C(3, 3) > 0
ScaleFit(rows) ==
  LET n == Len(rows)
      mx == Mean([k \in 1..n |-> rows[k].y])
      mm == Mean([k \in 1..n |-> rows[k].m])
      ss(f(_)) == Total([k \in 1..n |-> Dot(Sc(100000, f(k)), Sc(100000, f(k)))])
      a == ss(LAMBDA k : Sub(rows[k].y, mx))
      b == ss(LAMBDA k : Sub(rows[k].m, mm))
  IN Near(a, b, 300 + (a \div 500))
(* the orientation prior: cameras level, up is up *)
Level(e) ==
  LET o == SelectSeq(e.shots, LAMBDA s : Len(s.dirs) > 0)
      \* right, down and front of the upright image, in the aligned world
      dir(s, k) == IF s.dirs[k] > 0 THEN s.R[2][s.dirs[k]] ELSE Sc(-1000000, s.R[2][-s.dirs[k]])
      flat(s, k) == Near(dir(s, k)[3], 0, 300)
  IN IF \E k \in 1..Len(o) : ~flat(o[k], 1) THEN "a camera is not level"
     ELSE IF e.prior = "no_roll" /\ Total([k \in 1..Len(o) |-> dir(o[k], 2)[3]]) >= 0 THEN "the world is upside down"
     ELSE IF e.prior = "horizontal" /\ \E k \in 1..Len(o) : ~flat(o[k], 3) \/ ~Near(dir(o[k], 2)[3], -1000000, 300) THEN "a camera does not look at the horizon"
     ELSE IF e.prior = "vertical" /\ \E k \in 1..Len(o) : ~Near(dir(o[k], 3)[3], -1000000, 300) THEN "a camera does not look down"
     ELSE IF \E k \in 2..Len(e.shots) : ~Near(e.shots[k].o[2][3], e.shots[1].o[2][3], 3 * Tol(e)) THEN "the cameras are not at the same height"
     ELSE ""
Same(rows, f(_)) == \A k \in 2..Len(rows) : Near3(f(rows[k]), f(rows[1]), 3)
RigScale(e) == e.rigs = 1 /\ ~Near(e.S.s, 1000000, 3)
Align(e) ==
  LET rows == Known(e)
      n == Len(rows)
      meth == Method(e)
      m == Moved(e, e.S)
      distinct == n > 1 /\ ~Same(rows, LAMBDA r : r.m)
  IN IF n = 0 /\ meth = "naive" THEN (IF e.none = 1 THEN Ok(0) ELSE No("aligned to nothing"))
     ELSE IF e.none = 1 THEN No("no alignment although positions are known")
     ELSE IF m # "" THEN No(m)
     ELSE IF RigScale(e) THEN No("the alignment changes the scale of rigs")
     ELSE IF meth = "naive"
       THEN IF ~distinct THEN (IF Near(e.S.s, 1000000, 2) /\ e.S.A = <<<<1000000, 0, 0>>, <<0, 1000000, 0>>, <<0, 0, 1000000>>>> /\ Near3(rows[1].y, rows[1].m, Tol(e)) THEN Ok(0)
                               ELSE No("a single position is not aligned by a translation"))
            ELSE IF e.noise = 0 /\ ~Fits(rows, Tol(e)) THEN No("exact positions are not met")
            ELSE IF e.noise = 1 /\ ~SymFit(rows, e.S) THEN No("the alignment is not the best rotation and translation")
            ELSE IF e.noise = 1 /\ e.rigs = 0 /\ ~ScaleFit(rows) THEN No("the alignment has the wrong scale")
            ELSE Ok(0)
     ELSE LET l == Level(e)
          IN IF l # "" THEN No(l)
             ELSE IF n = 0 THEN (IF Near(e.S.s, 1000000, 2) /\ e.S.b = <<0, 0, 0>> THEN Ok(0) ELSE No("scaled or moved without positions"))
             ELSE IF ~Near3(Mean([k \in 1..n |-> rows[k].y]), Mean([k \in 1..n |-> rows[k].m]), 2 * Tol(e)) THEN No("the positions do not match on average")
             ELSE IF e.noise = 0 /\ distinct /\ ~Fits(rows, 2 * Tol(e)) THEN No("exact positions are not met in the plane")
             ELSE Ok(0)
(* biases: the reconstruction follows the control points, and each camera's bias brings its GPS positions onto it *)
Bias(e) ==
  LET m == Moved(e, e.S)
  IN IF e.able = 0 THEN (IF e.none = 1 /\ \A k \in 1..Len(e.shots) : e.shots[k].o[1] = e.shots[k].o[2] THEN Ok(0) ELSE No("a bias without control points"))
     ELSE IF e.none = 1 THEN No("no bias although control points are known")
     ELSE IF m # "" THEN No(m)
     ELSE IF \E k \in 1..Len(e.gcp) : ~Near3(Sim(e.S, e.gcp[k].o), e.gcp[k].m, Tol(e)) THEN No("the reconstruction is not on the control points")
     ELSE IF \E k \in 1..Len(e.biased) : ~Near3(e.biased[k][1], e.biased[k][2], 3 * Tol(e)) THEN No("the bias of a camera does not bring its GPS position onto the reconstruction")
     ELSE Ok(0)
MStep(case, s, e) ==
  IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE CASE e.op = "apply" -> Apply(e) [] e.op = "align" -> Align(e) [] e.op = "bias" -> Bias(e)
=============================================================================
