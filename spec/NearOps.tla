------------------------------ MODULE NearOps ------------------------------
(* Neighborhood of a shot: obs is a sequence of the sets of shots that see a    *)
(* point, mate gives the shots of the rig instance of a shot.                   *)
EXTENDS Integers, Sequences, FiniteSets
Seen(obs, I) == {p \in 1..Len(obs) : obs[p] \cap I # {}}
CommonWith(obs, I, s) == Cardinality({p \in Seen(obs, I) : s \in obs[p]})
All(obs) == UNION {obs[p] : p \in 1..Len(obs)}
Mates(mate, S) == UNION {mate[s] : s \in S}
Least(a, b) == IF a < b THEN a ELSE b
(* the best n of the shots that share at least min points, ties are free *)
Choices(obs, mate, I, min, n) ==
  LET C == {s \in All(obs) \ I : CommonWith(obs, I, s) >= min}
      k == Least(n, Cardinality(C))
      c == [s \in C |-> CommonWith(obs, I, s)]
      low == IF k = 0 THEN 0 ELSE CHOOSE v \in {c[s] : s \in C} : Cardinality({s \in C : c[s] > v}) < k /\ Cardinality({s \in C : c[s] >= v}) >= k
      T == {s \in C : c[s] > low}
      E == {s \in C : c[s] = low}
  IN IF k = 0 THEN {{}} ELSE {Mates(mate, T \cup U) : U \in {V \in SUBSET E : Cardinality(V) = k - Cardinality(T)}}
RECURSIVE Interiors(_, _, _, _, _, _)
Interiors(obs, mate, I, left, min, max) ==
  IF left = 0 \/ Cardinality(I) >= max THEN {I}
  ELSE UNION {Interiors(obs, mate, I \cup N, left - 1, min, max) : N \in Choices(obs, mate, I, min, max - Cardinality(I))}
Boundary(obs, mate, I) == Mates(mate, {s \in All(obs) \ I : CommonWith(obs, I, s) >= 1})
=============================================================================
