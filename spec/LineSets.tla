------------------------------- MODULE LineSets ------------------------------
(* Sets of integer points and the lines that explain them within 0.3: the       *)
(* inputs on which the robust estimator is compared with exhaustive search.     *)
EXTENDS Integers, FiniteSets, Sequences, SequencesExt, Json, TLC
CONSTANTS W, HGT, K
Grid == {<<x, y>> : x \in -1..W, y \in 0..HGT}
VARIABLES pts, last, most
Key(p) == (10 * p[1]) + p[2]
On(S, p, r) == {s \in S : LET dx == r[1] - p[1] IN 10 * (LET v == ((s[2] - p[2]) * dx) - ((r[2] - p[2]) * (s[1] - p[1])) IN IF v < 0 THEN -v ELSE v) < 3 * (IF dx < 0 THEN -dx ELSE dx)}
Pairs(S) == {pr \in S \X S : pr[1][1] # pr[2][1]}
MaxSet(T) == IF T = {} THEN 0 ELSE CHOOSE m \in T : \A t \in T : t <= m
Most(S) == MaxSet({Cardinality(On(S, pr[1], pr[2])) : pr \in Pairs(S)})
Init == pts = {} /\ last = -100 /\ most = 0
Add(p) == /\ Cardinality(pts) < K /\ Key(p) > last
          /\ pts' = pts \cup {p} /\ last' = Key(p) /\ most' = Most(pts')
Next == \E p \in Grid : Add(p)
Spec == Init /\ [][Next]_<<pts, last, most>>
Monotone == [][most' >= most]_<<pts, last, most>>
AtLeastTwo == Pairs(pts) # {} => most >= 2
Columns == Cardinality({p[1] : p \in pts}) >= most   \* a line meets a column once
Emit == Cardinality(pts) >= 2 /\ Pairs(pts) # {} => PrintT("@@" \o ToJson([p |-> SetToSeq(pts), m |-> most]))
=============================================================================
