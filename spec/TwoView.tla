------------------------------ MODULE TwoView --------------------------------
(* Two views of a point with integer coordinates.  The second camera is at c,   *)
(* the rays of the point P are P and P - c.  The essential matrix (the plane of *)
(* both rays and the baseline) does not change when the baseline is reversed or *)
(* the second camera is turned half around it: four decompositions.  Only one   *)
(* sees the point in front of both cameras.  A plane n.P = h induces the        *)
(* homography h I - c n^T.                                                      *)
EXTENDS Integers, TLC
Dot(u, v) == (u[1] * v[1]) + (u[2] * v[2]) + (u[3] * v[3])
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Sc(s, u) == <<s * u[1], s * u[2], s * u[3]>>
Cross(u, v) == <<(u[2] * v[3]) - (u[3] * v[2]), (u[3] * v[1]) - (u[1] * v[3]), (u[1] * v[2]) - (u[2] * v[1])>>
Zero == <<0, 0, 0>>
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
(* half turn about c, times |c|^2 *)
Turn(c, v) == Sub(Sc(2 * Dot(v, c), c), Sc(Dot(c, c), v))
(* depths of the meeting point of the lines from 0 along d and from c along f; they meet when d, f, c are in a plane *)
Depth1(c, d, f) == Sign(Dot(Cross(c, f), Cross(d, f)))
Depth2(c, d, f) == Sign(Dot(Cross(c, d), Cross(d, f)))
Signs(c, d, f) == <<Depth1(c, d, f), Depth2(c, d, f)>>
VARIABLES c, P, n
Box == {<<i, j, k>> : i \in -2..2, j \in -2..2, k \in -2..2}
Small == {<<i, j, k>> : i \in -1..1, j \in -1..1, k \in -1..1} \ {Zero}
vars == <<c, P, n>>
Init == /\ c \in Small /\ P \in Box /\ n \in {<<0, 0, 1>>, <<1, -1, 1>>} /\ Cross(P, c) # Zero
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
D1 == P
D2 == Sub(P, c)
T2 == Turn(c, D2)
Four == <<Signs(c, D1, D2), Signs(Sc(-1, c), D1, D2), Signs(c, D1, T2), Signs(Sc(-1, c), D1, T2)>>
Plane(a, f) == Dot(Cross(c, a), f) = 0
Epipolar == Plane(D1, D2) /\ Plane(D1, T2)
OneInFront == Four[1] = <<1, 1>> /\ Four[2] = <<-1, -1>> /\ \A k \in 3..4 : Four[k] \notin {<<1, 1>>, <<-1, -1>>}
Mirror == \A k \in {1, 3} : Four[k + 1] = <<-Four[k][1], -Four[k][2]>>
Rigid == Dot(T2, T2) = Dot(c, c) * Dot(c, c) * Dot(D2, D2) /\ Turn(c, T2) = Sc(Dot(c, c) * Dot(c, c), D2)
(* H P = h (P - c) for the points of the plane *)
Homography == LET h == Dot(n, P) IN Sub(Sc(h, P), Sc(Dot(n, P), c)) = Sc(h, D2)
(* a chirality vote over several points: the sum over the points of the signs is greatest for the true motion *)
Vote == LET v(k) == Four[k][1] + Four[k][2] IN \A k \in 2..4 : v(k) < v(1)
=============================================================================
