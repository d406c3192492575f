------------------------------ MODULE SimFrame ------------------------------
(* Similarities y = s A x + b on integer points with the 24 axis rotations and *)
(* scales; their action on camera poses, and what alignment constraints       *)
(* determine.  Checked exhaustively by TLC on small constants.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
At3(M, r, c) == M[3 * (r - 1) + c]
Row(M, r, x) == At3(M, r, 1) * x[1] + At3(M, r, 2) * x[2] + At3(M, r, 3) * x[3]
App(M, x) == <<Row(M, 1, x), Row(M, 2, x), Row(M, 3, x)>>
El(A, B, r, c) == At3(A, r, 1) * At3(B, 1, c) + At3(A, r, 2) * At3(B, 2, c) + At3(A, r, 3) * At3(B, 3, c)
Mul(A, B) == <<El(A, B, 1, 1), El(A, B, 1, 2), El(A, B, 1, 3), El(A, B, 2, 1), El(A, B, 2, 2), El(A, B, 2, 3), El(A, B, 3, 1), El(A, B, 3, 2), El(A, B, 3, 3)>>
Tr(A) == <<A[1], A[4], A[7], A[2], A[5], A[8], A[3], A[6], A[9]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sc(k, a) == <<k * a[1], k * a[2], k * a[3]>>
RX == <<1, 0, 0, 0, 0, -1, 0, 1, 0>>
RY == <<0, 0, 1, 0, 1, 0, -1, 0, 0>>
RZ == <<0, -1, 0, 1, 0, 0, 0, 0, 1>>
I9 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
Sq(S) == S \cup {Mul(a, b) : a \in S, b \in S}
Group == Sq(Sq(Sq({I9, RX, RY, RZ})))
(* similarity on points; on a pose [R, t] (camera = R x + t) and on the pose of a camera in its rig *)
Pt(S, x) == Add(Sc(S.s, App(S.A, x)), S.b)
PoseOf(S, p) == LET R == Mul(p.R, Tr(S.A)) IN [R |-> R, t |-> Add(Sc(-1, App(R, S.b)), Sc(S.s, p.t))]
RigCam(S, p) == [R |-> p.R, t |-> Sc(S.s, p.t)]
Cam(p, x) == Add(App(p.R, x), p.t)
Comp(c, i) == [R |-> Mul(c.R, i.R), t |-> Add(App(c.R, i.t), c.t)]
VARIABLES S, T, p, c, x
Vecs == {<<0, 0, 0>>, <<1, 0, 2>>, <<-1, 3, 0>>}
Sims == [s : {1, 2}, A : Group, b : Vecs]
Init == /\ S \in Sims /\ T \in {Q \in Sims : Q.A \in {I9, RY} /\ Q.b = <<1, 0, 2>>} /\ x \in Vecs
        /\ p \in [R : {I9, RY, Mul(RX, RZ)}, t : {<<0, 0, 0>>, <<1, 2, -1>>}]
        /\ c \in [R : {I9, RX}, t : {<<0, 1, 0>>}]
Next == FALSE /\ UNCHANGED <<S, T, p, c, x>>
Spec == Init /\ [][Next]_<<S, T, p, c, x>>
One == S.A = RX /\ S.s = 1 /\ S.b = <<0, 0, 0>>
Rotations == (One /\ p.R = I9 /\ x = <<0, 0, 0>>) => Cardinality(Group) = 24 /\ \A A \in Group : Mul(A, Tr(A)) = I9
(* what a camera sees only changes by the scale: its images stay the same, with or without a rig *)
SameImages == /\ Cam(PoseOf(S, p), Pt(S, x)) = Sc(S.s, Cam(p, x))
              /\ Cam(Comp(RigCam(S, c), PoseOf(S, p)), Pt(S, x)) = Sc(S.s, Cam(Comp(c, p), x))
(* similarities compose *)
Join(Q, P) == [s |-> Q.s * P.s, A |-> Mul(Q.A, P.A), b |-> Pt(Q, P.b)]
Compose == Pt(T, Pt(S, x)) = Pt(Join(T, S), x) /\ PoseOf(T, PoseOf(S, p)) = PoseOf(Join(T, S), p)
(* three points that are not on a line determine the similarity; points on a line leave a rotation about it *)
Tri == <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 2, 0>>>>
Line == <<<<0, 0, 0>>, <<1, 0, 0>>, <<3, 0, 0>>>>
Unique == (S.b = <<1, 0, 2>> /\ T.A = I9 /\ T.s = 1 /\ T.b = <<1, 0, 2>> /\ c.R = I9 /\ p.R = I9 /\ p.t = <<0, 0, 0>> /\ x = <<0, 0, 0>>) =>
  /\ \A Q \in Sims : (\A k \in 1..3 : Pt(Q, Tri[k]) = Pt(S, Tri[k])) => Q = S
  /\ Cardinality({Q \in Sims : \A k \in 1..3 : Pt(Q, Line[k]) = Pt(S, Line[k])}) = 4
(* exact correspondences satisfy the conditions by which a least squares fit is recognised *)
Cross(Q, u, v) == Mul(<<v[1] * u[1], v[2] * u[1], v[3] * u[1], v[1] * u[2], v[2] * u[2], v[3] * u[2], v[1] * u[3], v[2] * u[3], v[3] * u[3]>>, Tr(Q.A))
Optimal == LET M == Cross(S, App(S.A, x), x) IN M = Tr(M)
=============================================================================
