----------------------------- MODULE TrackBuild -----------------------------
(* Track creation.  Pairwise matches arrive one at a time, in any order, and *)
(* are linked by a union-find structure; at the end, components are filtered *)
(* into tracks.  The design property is that the partition maintained link   *)
(* by link is always the set of connected components of the matches seen so  *)
(* far, whatever the order.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

(* ---- pure part, shared with the monitor ---- *)
Link(part, e) ==
  LET a == e[1]
      b == e[2]
      A == UNION {S \in part : a \in S} \cup {a}
      B == UNION {S \in part : b \in S} \cup {b}
  IN  {S \in part : a \notin S /\ b \notin S} \cup {A \cup B}

RECURSIVE Components(_, _, _)
Components(part, edges, k) ==
  IF k > Len(edges) THEN part ELSE Components(Link(part, edges[k]), edges, k + 1)

OneFeaturePerImage(S) == \A x \in S : \A y \in S : x[1] = y[1] => x = y
Good(S, minlen) == Cardinality(S) >= minlen /\ OneFeaturePerImage(S)
TracksOf(part, minlen) == {S \in part : Good(S, minlen)}

(* ---- state machine ---- *)
CONSTANTS Images, Feats, MinLen, MaxLinks
VARIABLES edges, part
vars == <<edges, part>>

Nodes == Images \X Feats
Matchable == {e \in Nodes \X Nodes : e[1][1] < e[2][1]}

Init == edges = {} /\ part = {}
Next == \E e \in Matchable : /\ e \notin edges
                             /\ Cardinality(edges) < MaxLinks
                             /\ edges' = edges \cup {e}
                             /\ part' = Link(part, e)
Spec == Init /\ [][Next]_vars

(* reachability, defined independently of Link *)
Adj(x, es) == {y \in Nodes : <<x, y>> \in es \/ <<y, x>> \in es}
RECURSIVE Reach(_, _)
Reach(S, es) == LET T == S \cup UNION {Adj(x, es) : x \in S}
                IN IF T = S THEN S ELSE Reach(T, es)
Touched == {e[1] : e \in edges} \cup {e[2] : e \in edges}

PartitionIsComponents == part = {Reach({x}, edges) : x \in Touched}
TracksDisjoint == \A S, T \in TracksOf(part, MinLen) : S = T \/ S \cap T = {}
TracksValid == \A S \in TracksOf(part, MinLen) :
                 Cardinality(S) >= MinLen /\ Cardinality({x[1] : x \in S}) = Cardinality(S)
(* each link can only merge: a track is never split by further matches *)
Coarsens == [][\A S \in part : \E T \in part' : S \subseteq T]_vars

EdgeView == edges
(* behaviour emission: one behaviour per distinct set of links *)
Emit == PrintT("@@" \o ToJson([links |-> SetToSeq(edges)]))
=============================================================================
