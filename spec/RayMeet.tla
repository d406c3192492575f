------------------------------- MODULE RayMeet -------------------------------
(* Rays from camera centres that meet in a point, with integer coordinates.   *)
(* A point is accepted when two rays make a sufficient angle, it lies on the   *)
(* rays within the threshold and in front of every centre.  Angles are         *)
(* compared exactly through (d1.d2)^2 / (|d1|^2 |d2|^2).                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Dot(u, v) == (u[1] * v[1]) + (u[2] * v[2]) + (u[3] * v[3])
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Cross(u, v) == <<(u[2] * v[3]) - (u[3] * v[2]), (u[3] * v[1]) - (u[1] * v[3]), (u[1] * v[2]) - (u[2] * v[1])>>
N2(u) == Dot(u, u)
Neg(u) == <<-u[1], -u[2], -u[3]>>
Zero == <<0, 0, 0>>
CONSTANT SN, SD        \* squared sine of the least angle: SN / SD
Wide(d, f) == SD * N2(Cross(d, f)) >= SN * (N2(d) * N2(f)) /\ Cross(d, f) # Zero
OnRay(r, x) == Cross(Sub(x, r.c), r.d) = Zero
Front(r, x) == Dot(Sub(x, r.c), r.d) > 0
Accept(rs, x) == /\ \E i \in 1..Len(rs) : \E j \in 1..Len(rs) : Wide(rs[i].d, rs[j].d)
                 /\ \A i \in 1..Len(rs) : OnRay(rs[i], x) /\ Front(rs[i], x)
(* the matrix of the normal equations (each ray weighted by |d|^2); row i of |d|^2 I - d d^T *)
Nrm(d, i, j) == (IF i = j THEN N2(d) ELSE 0) - (d[i] * d[j])
RECURSIVE SumN(_, _, _, _)
SumN(rs, k, i, j) == IF k = 0 THEN 0 ELSE Nrm(rs[k].d, i, j) + SumN(rs, k - 1, i, j)
M(rs, i, j) == SumN(rs, Len(rs), i, j)
Det(rs) == (M(rs, 1, 1) * ((M(rs, 2, 2) * M(rs, 3, 3)) - (M(rs, 2, 3) * M(rs, 3, 2))))
           - (M(rs, 1, 2) * ((M(rs, 2, 1) * M(rs, 3, 3)) - (M(rs, 2, 3) * M(rs, 3, 1))))
           + (M(rs, 1, 3) * ((M(rs, 2, 1) * M(rs, 3, 2)) - (M(rs, 2, 2) * M(rs, 3, 1))))
VARIABLES rs, x
Grid == {<<a, b, c>> : a \in 0..2, b \in 0..1, c \in 0..1}
Targets == {<<a, b, c>> : a \in 0..2, b \in 0..1, c \in {0, 2, 3}}
Rays(p, n) == {s \in [1..n -> {[c |-> c, d |-> Sub(p, c)] : c \in Grid \ {p}}] : TRUE}
Init == \E n \in 2..3 : \E p \in Targets : x = p /\ rs \in Rays(p, n)
Next == FALSE /\ UNCHANGED <<rs, x>>
Spec == Init /\ [][Next]_<<rs, x>>
Parallel == \A i \in 1..Len(rs) : \A j \in 1..Len(rs) : Cross(rs[i].d, rs[j].d) = Zero
(* rays that are not all parallel determine their point; parallel ones never give one *)
Solvable == (Det(rs) = 0) <=> Parallel
Unique == ~Parallel => \A y \in Targets : (\A i \in 1..Len(rs) : OnRay(rs[i], y)) => y = x
NeverParallel == Parallel => ~Accept(rs, x)
(* a ray turned back, one that passes elsewhere, refuses the point; more consistent rays never do *)
Flip(i) == [rs EXCEPT ![i].d = Neg(rs[i].d)]
Behind == \A i \in 1..Len(rs) : ~Accept(Flip(i), x)
Off == \A i \in 1..Len(rs) : \A c \in {<<0, 0, 0>>, <<1, 0, 1>>} : LET q == [rs EXCEPT ![i].c = c] IN Accept(q, x) => OnRay(q[i], x)
Grow == Len(rs) = 3 => (Accept(<<rs[1], rs[2]>>, x) => Accept(rs, x))
Order == Accept(rs, x) = Accept([k \in 1..Len(rs) |-> rs[Len(rs) + 1 - k]], x)
=============================================================================
