------------------------------ MODULE MaskAlg -------------------------------
(* Where the feature at pixel (x, y) of a raw w x h image lands in an upright *)
(* map of nw x nh cells, for each EXIF orientation; and the combined mask.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Orients == {1, 3, 6, 8}
(* centre of the pixel as a fraction of the upright image: <<num, den>> per axis *)
Frac(x, y, w, h, o) ==
  LET X == <<2 * x + 1, 2 * w>>
      Y == <<2 * y + 1, 2 * h>>
      neg(f) == <<f[2] - f[1], f[2]>>
  IN CASE o = 1 -> <<X, Y>> [] o = 3 -> <<neg(X), neg(Y)>> [] o = 6 -> <<neg(Y), X>> [] o = 8 -> <<Y, neg(X)>>
(* a point exactly on the border of two cells belongs to either *)
Cells(f, n) == LET i == (n * f[1]) \div f[2]
                   c == IF (n * f[1]) % f[2] = 0 THEN {i, i - 1} ELSE {i}
               IN {k \in c : k >= 0 /\ k < n}
At(x, y, w, h, o, nw, nh) == LET f == Frac(x, y, w, h, o) IN {<<c, r>> : c \in Cells(f[1], nw), r \in Cells(f[2], nh)}
(* mask: rows of values; empty = no mask.  ignore: set of labels *)
Shown(m, cell) == m[cell[2] + 1][cell[1] + 1] # 0
Label(m, cell) == m[cell[2] + 1][cell[1] + 1]
Values(m, x, y, w, h, o) == {Label(m, c) : c \in At(x, y, w, h, o, Len(m[1]), Len(m))}
KeptByMask(m, x, y, w, h, o) == IF Len(m) = 0 THEN {TRUE} ELSE {v # 0 : v \in Values(m, x, y, w, h, o)}
KeptBySeg(s, ign, x, y, w, h, o) == IF Len(s) = 0 \/ ign = {} THEN {TRUE} ELSE {v \notin ign : v \in Values(s, x, y, w, h, o)}
Kept(m, s, ign, x, y, w, h, o) == {a /\ b : a \in KeptByMask(m, x, y, w, h, o), b \in KeptBySeg(s, ign, x, y, w, h, o)}

(* ---- design check: orientations are permutations of the pixels and compose ---- *)
VARIABLE v
Init == v \in [x : 0..3, y : 0..2, o : Orients, p : Orients]
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
W(o) == IF o < 6 THEN 4 ELSE 3
H(o) == IF o < 6 THEN 3 ELSE 4
To(x, y, o) == At(x, y, 4, 3, o, W(o), H(o))
One == Cardinality(To(v.x, v.y, v.o)) = 1
Injective == \A x \in 0..3, y \in 0..2 : (<<x, y>> # <<v.x, v.y>>) => To(x, y, v.o) # To(v.x, v.y, v.o)
Undo == LET a == CHOOSE c \in To(v.x, v.y, 6) : TRUE IN At(a[1], a[2], 3, 4, 8, 4, 3) = {<<v.x, v.y>>}
Turn == LET a == CHOOSE c \in To(v.x, v.y, 6) : TRUE IN At(a[1], a[2], 3, 4, 6, 4, 3) = To(v.x, v.y, 3)
=============================================================================
