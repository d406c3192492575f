----------------------------- MODULE Incremental -----------------------------
(* Incremental reconstruction: candidate pairs are tried in order; a pair whose *)
(* images are both free may start a reconstruction, which then takes free       *)
(* images while one can be added.  Images of one rig instance go together.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Images, Mate, Pairs      \* Mate[i]: images of the instance of i; Pairs: the queue
VARIABLES queue, free, cur, recs, tried
vars == <<queue, free, cur, recs, tried>>
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Init == queue = Pairs /\ free = Images /\ cur = {} /\ recs = <<>> /\ tried = {}
Insert(s, r) == LET k == Cardinality({j \in 1..Len(s) : Cardinality(s[j]) >= Cardinality(r)}) IN SubSeq(s, 1, k) \o <<r>> \o SubSeq(s, k + 1, Len(s))
Skip == /\ cur = {} /\ queue # <<>> /\ ~({queue[1][1], queue[1][2]} \subseteq free)
        /\ queue' = Tail(queue) /\ UNCHANGED <<free, cur, recs, tried>>
Fail == /\ cur = {} /\ queue # <<>> /\ {queue[1][1], queue[1][2]} \subseteq free
        /\ queue' = Tail(queue) /\ tried' = tried \cup {queue[1]} /\ UNCHANGED <<free, cur, recs>>
Start == /\ cur = {} /\ queue # <<>> /\ {queue[1][1], queue[1][2]} \subseteq free
         /\ cur' = Mate[queue[1][1]] \cup Mate[queue[1][2]]
         /\ free' = free \ cur' /\ queue' = Tail(queue) /\ tried' = tried \cup {queue[1]} /\ UNCHANGED recs
Grow == \E i \in free : /\ cur # {} /\ cur' = cur \cup Mate[i] /\ free' = free \ Mate[i] /\ UNCHANGED <<queue, recs, tried>>
Close == /\ cur # {} /\ recs' = Insert(recs, cur) /\ cur' = {} /\ UNCHANGED <<queue, free, tried>>
Done == queue = <<>> /\ cur = {} /\ UNCHANGED vars
Next == Skip \/ Fail \/ Start \/ Grow \/ Close \/ Done
Spec == Init /\ [][Next]_vars
Set(s) == {s[k] : k \in 1..Len(s)}
Disjoint == \A i, j \in 1..Len(recs) : i # j => recs[i] \cap recs[j] = {}
Complete == free = (Images \ UNION Set(recs)) \ cur /\ cur \cap UNION Set(recs) = {}
Sorted == \A i \in 2..Len(recs) : Cardinality(recs[i]) <= Cardinality(recs[i - 1])
Whole == \A r \in Set(recs) : \A i \in r : Mate[i] \subseteq r
Tried == queue = <<>> => \A k \in 1..Len(Pairs) : Pairs[k] \in tried \/ ~({Pairs[k][1], Pairs[k][2]} \subseteq free)
M1 == [i \in 1..5 |-> IF i \in {1, 2} THEN {1, 2} ELSE {i}]
Q1 == <<<<1, 3>>, <<2, 4>>, <<3, 4>>, <<4, 5>>, <<1, 2>>, <<3, 5>>>>
=============================================================================
