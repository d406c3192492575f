---------------------------- MODULE Neighborhood ----------------------------
(* Local bundle adjustment: growth of the interior around a shot, then the      *)
(* boundary; which instances and points move.                                   *)
EXTENDS NearOps, Json, SequencesExt, TLC
CONSTANTS N, POINTS, RIGS
S == 1..N
Rigs4 == {<<1, 2, 3, 4>>, <<1, 1, 2, 3>>, <<1, 2, 2, 3>>, <<1, 1, 2, 2>>}
VARIABLES obs, rig, center, min, max, left, interior, phase, r0
vars == <<obs, rig, center, min, max, left, interior, phase, r0>>
Group(s) == {t \in S : rig[t] = rig[s]}
mate == [s \in S |-> Group(s)]
Code(T) == LET RECURSIVE sum(_)
               sum(U) == IF U = {} THEN 0 ELSE LET x == CHOOSE y \in U : TRUE IN 2 ^ (x - 1) + sum(U \ {x})
           IN sum(T)
Init == /\ obs = <<>> /\ rig \in RIGS /\ center = 1 /\ min = 1 /\ max = 1 /\ left = 0 /\ interior = {} /\ phase = "graph" /\ r0 = 0
AddPoint == /\ phase = "graph" /\ Len(obs) < POINTS
            /\ \E T \in (SUBSET S) : Cardinality(T) >= 2 /\ (IF obs = <<>> THEN TRUE ELSE Code(T) >= Code(obs[Len(obs)])) /\ obs' = Append(obs, T)
            /\ UNCHANGED <<rig, center, min, max, left, interior, phase, r0>>
Choose == /\ phase = "graph" /\ Len(obs) = POINTS
          /\ \E c \in {1, 2} : \E m \in {1, 2} : \E x \in {1, 2, 10} : \E r \in 1..3 :
               /\ center' = c /\ min' = m /\ max' = x /\ left' = r - 1 /\ r0' = r
               /\ interior' = Group(c)
          /\ phase' = "grow" /\ UNCHANGED <<obs, rig>>
Grow == /\ phase = "grow" /\ left > 0 /\ Cardinality(interior) < max
        /\ \E T \in Choices(obs, mate, interior, min, max - Cardinality(interior)) : interior' = interior \cup T
        /\ left' = left - 1 /\ UNCHANGED <<obs, rig, center, min, max, phase, r0>>
Stop == /\ phase = "grow" /\ (left = 0 \/ Cardinality(interior) >= max)
        /\ phase' = "done" /\ UNCHANGED <<obs, rig, center, min, max, left, interior, r0>>
Next == AddPoint \/ Choose \/ Grow \/ Stop
Spec == Init /\ [][Next]_vars
B == Boundary(obs, mate, interior)
Moving == {s \in interior : Group(s) \cap B = {}}
Points == Seen(obs, interior)
Done == phase = "done"
Closed == phase \in {"grow", "done"} => center \in interior /\ \A s \in interior : Group(s) \subseteq interior
Apart == Done => interior \cap B = {} /\ \A s \in B : Group(s) \subseteq B
(* every observer of a point that moves takes part; so no error of an outside shot changes *)
Covered == Done => \A p \in Points : obs[p] \subseteq interior \cup B
InteriorMoves == Done => Moving = interior
RECURSIVE Ball(_)
Ball(k) == IF k = 0 THEN Group(center) ELSE LET b == Ball(k - 1) IN b \cup Mates(mate, {s \in All(obs) \ b : CommonWith(obs, b, s) >= min})
Within == Done => interior \subseteq Ball(r0 - 1)
Exact == Done /\ max = 10 => interior = Ball(r0 - 1)
Agrees == Done => interior \in Interiors(obs, mate, Group(center), r0 - 1, min, max)
Emit == (Done /\ (\A T \in Interiors(obs, mate, Group(center), r0 - 1, min, max) : Code(interior) <= Code(T))) =>
        PrintT("@@" \o ToJson([obs |-> [p \in 1..Len(obs) |-> SetToSortSeq(obs[p], <)], rig |-> rig, c |-> center, min |-> min, max |-> max, r |-> r0]))
=============================================================================
