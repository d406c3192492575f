------------------------------- MODULE PoseAlg ------------------------------
(* Exact rigid motions over the rationals.  A pose maps world to camera:     *)
(* x -> (M/n) x + t/d   with M 3x3 (row major), M/n a rotation, t a vector.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ix == 1..3
At3(M, r, c) == M[3 * (r - 1) + c]
Mul(A, B) == [k \in 1..9 |-> LET r == ((k - 1) \div 3) + 1
                                 c == ((k - 1) % 3) + 1
                             IN At3(A, r, 1) * At3(B, 1, c) + At3(A, r, 2) * At3(B, 2, c) + At3(A, r, 3) * At3(B, 3, c)]
App(A, x) == [r \in Ix |-> At3(A, r, 1) * x[1] + At3(A, r, 2) * x[2] + At3(A, r, 3) * x[3]]
Tr(A) == [k \in 1..9 |-> At3(A, ((k - 1) % 3) + 1, ((k - 1) \div 3) + 1)]
VAdd(a, b) == [r \in Ix |-> a[r] + b[r]]
VScale(k, a) == [r \in Ix |-> k * a[r]]
I9 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
Id == [n |-> 1, M |-> I9, t |-> <<0, 0, 0>>, d |-> 1]
(* first b, then a *)
Comp(a, b) == [n |-> a.n * b.n, M |-> Mul(a.M, b.M), d |-> a.n * b.d * a.d,
               t |-> VAdd(VScale(a.d, App(a.M, b.t)), VScale(a.n * b.d, a.t))]
Inv(a) == [n |-> a.n, M |-> Tr(a.M), d |-> a.n * a.d, t |-> VScale(-1, App(Tr(a.M), a.t))]
Rel(a, b) == Comp(a, Inv(b))
Origin(a) == [v |-> VScale(-1, App(Tr(a.M), a.t)), d |-> a.n * a.d]
Image(a, x) == [v |-> VAdd(VScale(a.d, App(a.M, x)), VScale(a.n, a.t)), d |-> a.n * a.d]
SameQ(x, y) == \A r \in 1..Len(x.v) : x.v[r] * y.d = y.v[r] * x.d
SamePose(a, b) == SameQ([v |-> a.M, d |-> a.n], [v |-> b.M, d |-> b.n]) /\ SameQ([v |-> a.t, d |-> a.d], [v |-> b.t, d |-> b.d])
(* setters *)
WithR(a, n, M) == [a EXCEPT !.n = n, !.M = M]
WithT(a, t) == [a EXCEPT !.t = t, !.d = 1]
WithO(a, o) == [a EXCEPT !.t = VScale(-1, App(a.M, o)), !.d = a.n]
(* a measured number g, scaled by S, agrees with num/den *)
Abs0(x) == IF x < 0 THEN -x ELSE x
Near(num, den, g, S, tol) == Abs0(S * num - g * den) <= tol * den
NearV(v, d, g, S, tol) == Len(g) = Len(v) /\ \A k \in 1..Len(v) : Near(v[k], d, g[k], S, tol)
NearPose(a, g, S, tol) == NearV(a.M, a.n, SubSeq(g, 1, 9), S, tol) /\ NearV(a.t, a.d, SubSeq(g, 10, 12), S, tol)
=============================================================================
