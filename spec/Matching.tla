------------------------------ MODULE Matching ------------------------------
(* Descriptor matching between two images, and storage of the matches.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

(* ------------------------------ pure part -------------------------------- *)
(* D(i, j) squared distance, A allowed pairs, I and J index sets; ratio in   *)
(* percent.  good: certainly accepted; edge: the ratio is exactly on the     *)
(* threshold, either answer is right.                                        *)
Near(i, J, D(_, _)) == {j \in J : \A k \in J : D(i, j) <= D(i, k)}
Second(i, j, J, D(_, _)) == Min({D(i, k) : k \in J \ {j}})
Accept(i, J, D(_, _), r, strict) ==
  IF Cardinality(J) < 2 THEN {}
  ELSE {<<i, j>> : j \in {k \in J : /\ k \in Near(i, J, D)
                           /\ LET a == D(i, k) * 10000
                                  b == r * r * Second(i, k, J, D)
                              IN IF strict THEN a < b ELSE a <= b}}
OneWay(I, J, A, D(_, _), r, strict) ==
  UNION {Accept(i, {j \in J : <<i, j>> \in A}, D, r, strict) : i \in I}
Flip(S) == {<<p[2], p[1]>> : p \in S}
BothWays(I, J, A, D(_, _), r, strict) ==
  OneWay(I, J, A, D, r, strict) \cap Flip(OneWay(J, I, Flip(A), LAMBDA a, b : D(b, a), r, strict))
Injective(S) == \A p \in S : \A q \in S : (p[1] = q[1] \/ p[2] = q[2]) => p = q

(* matching through visual words: feature i looks at the features filed under *)
(* its words, one word after the other, until enough were examined           *)
RECURSIVE Visit(_, _, _, _, _)
Visit(words, k, seen, filed(_), checks) ==
  IF k > Len(words) THEN seen
  ELSE LET now == seen \cup filed(words[k])
       IN IF Cardinality(now) >= checks THEN now ELSE Visit(words, k + 1, now, filed, checks)
WordMatch(i, words, filed(_), D(_, _), r, checks, strict) ==
  LET S == Visit(words, 1, {}, filed, checks)
  IN IF S = {} THEN {}
     ELSE IF Cardinality(S) = 1 THEN {<<i, j>> : j \in S}
     ELSE Accept(i, S, D, r, strict)

(* positions of the kept features *)
Kept(mask) == SelectSeq([k \in 1..Len(mask) |-> k], LAMBDA k : mask[k])
Unfiltered(S, m1, m2) == {<<Kept(m1)[p[1]], Kept(m2)[p[2]]>> : p \in S}

(* ------------------------ stored matches, as a machine ------------------- *)
(* Matches of a pair are kept in the file of one of its images, columns      *)
(* ordered (that image, the other one).                                      *)
CONSTANTS Imgs, Feats
VARIABLES todo, refs, files, want
vars == <<todo, refs, files, want>>
StoreIn(f, R, a, b, m) == IF a \in R THEN f \cup {<<a, b, m>>} ELSE f \cup {<<b, a, Flip(m)>>}
(* what reading both files tells about a and b, as (feature of a, of b) *)
Read(f, a, b) == UNION {x[3] : x \in {y \in f : y[1] = a /\ y[2] = b}}
                 \cup UNION {Flip(x[3]) : x \in {y \in f : y[1] = b /\ y[2] = a}}
Init == /\ refs \in SUBSET Imgs
        /\ want \in [{<<1, 2>>, <<3, 1>>, <<2, 3>>} -> SUBSET (Feats \X Feats)]
        /\ \A p \in DOMAIN want : p[1] \in refs \/ p[2] \in refs
        /\ todo = DOMAIN want /\ files = {}
Save == \E p \in todo : /\ todo' = todo \ {p}
                        /\ files' = StoreIn(files, refs, p[1], p[2], want[p])
                        /\ UNCHANGED <<refs, want>>
Next == Save
Spec == Init /\ [][Next]_vars
AllRead == todo = {} => \A p \in DOMAIN want : Read(files, p[1], p[2]) = want[p] /\ Read(files, p[2], p[1]) = Flip(want[p])
OnlyRefs == \A x \in files : x[1] \in refs

(* symmetric matching is one to one whatever the distances *)
MInit == /\ want \in [(1..3) \X (1..3) -> 0..2] /\ refs = {} /\ todo = {} /\ files = {}
MNext == UNCHANGED vars
OneToOne == LET S == BothWays(1..3, 1..3, (1..3) \X (1..3), LAMBDA a, b : want[<<a, b>>], 80, TRUE) IN Injective(S)
=============================================================================
