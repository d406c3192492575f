------------------------------ MODULE DenseRow ------------------------------
(* Cleaning depth maps of one row: cameras side by side (focal length F,      *)
(* baselines B) look at small depths; a depth stays when enough views agree.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, DEPTHS, BASES, F
VARIABLES d1, d2, d3, b2, b3, step
vars == <<d1, d2, d3, b2, b3, step>>
Px == 0..(W - 1)
Init == /\ d1 \in [Px -> DEPTHS] /\ d2 \in [Px -> DEPTHS] /\ d3 \in [Px -> DEPTHS] /\ b2 \in BASES /\ b3 \in {-b : b \in BASES} \cup BASES /\ step = 0
Next == step = 0 /\ step' = 1 /\ UNCHANGED <<d1, d2, d3, b2, b3>>
Spec == Init /\ [][Next]_vars
(* disparities are whole numbers when the depth divides F * baseline *)
Sees(d, b, x) == LET z == d1[x] IN
  IF z = 0 THEN FALSE ELSE (F * b) % z = 0 /\ LET u == x - (F * b) \div z IN u \in 0..(W - 2) /\ d[u] = z
Votes(x) == 1 + (IF Sees(d2, b2, x) THEN 1 ELSE 0) + (IF Sees(d3, b3, x) THEN 1 ELSE 0)
Kept(m) == {x \in Px : d1[x] # 0 /\ Votes(x) >= m}
Fewer == Kept(3) \subseteq Kept(2) /\ Kept(2) \subseteq Kept(1)
Alone == Kept(1) = {x \in Px : d1[x] # 0}
Emit == (step = 0 /\ \E x \in Px : Votes(x) > 1) => PrintT("@@" \o ToJson([d |-> <<d1, d2, d3>>, b |-> <<0, b2, b3>>, f |-> F]))
=============================================================================
