---------------------------- MODULE TracksStore ----------------------------
(* The tracks manager: a relation (image, track) -> observation kept in two  *)
(* indexes, one per image and one per track.  The design property is that    *)
(* under any edit history both indexes are projections of one relation.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

(* ------------------------------ pure part -------------------------------- *)
(* a relation is a set of triples <<image, track, value>>                    *)
Empty == {}
At(rel, s, t) == {x \in rel : x[1] = s /\ x[2] = t}
Put(rel, s, t, v) == (rel \ At(rel, s, t)) \cup {<<s, t, v>>}
Del(rel, s, t) == rel \ At(rel, s, t)
OfShot(rel, s) == {<<x[2], x[3]>> : x \in {y \in rel : y[1] = s}}
OfTrack(rel, t) == {<<x[1], x[3]>> : x \in {y \in rel : y[2] = t}}
ShotsOf(rel) == {x[1] : x \in rel}
TracksIn(rel) == {x[2] : x \in rel}
Functional(rel) == \A x \in rel : \A y \in rel : (x[1] = y[1] /\ x[2] = y[2]) => x = y
Sub(rel, T, S) == {x \in rel : x[2] \in T /\ x[1] \in S}
(* tracks seen in both images, with both observations *)
Common(rel, a, b) == {<<x[2], x[3], y[3]>> : <<x, y>> \in
                        {p \in {z \in rel : z[1] = a} \X {z \in rel : z[1] = b} : p[1][2] = p[2][2]}}
(* number of (allowed) tracks shared by every pair of (allowed) images *)
Pairs(rel, S, T) ==
  LET r == Sub(rel, T, S)
      sh == ShotsOf(r)
      n(a, b) == Cardinality({t \in TracksIn(r) : At(r, a, t) # {} /\ At(r, b, t) # {}})
  IN {<<{p[1], p[2]}, n(p[1], p[2])>> : p \in {q \in sh \X sh : q[1] # q[2] /\ n(q[1], q[2]) > 0}}

(* Merging several managers: two tracks are joined when they share a feature *)
(* (image, feature id).  Each relation has triples <<image, track, <<feature, value>> >> *)
Keys(rel, t) == {<<x[1], x[3][1]>> : x \in {y \in rel : y[2] = t}}
AllTracks(rels) == {<<k, t>> : <<k, t>> \in UNION {{k} \X TracksIn(rels[k]) : k \in 1..Len(rels)}}
RECURSIVE Join(_, _)
Join(groups, todo) ==
  IF todo = {} THEN groups
  ELSE LET g == CHOOSE x \in todo : TRUE
           near == {h \in groups : h.keys \cap g.keys # {}}
       IN Join((groups \ near) \cup {[mem |-> g.mem \cup UNION {h.mem : h \in near},
                                      keys |-> g.keys \cup UNION {h.keys : h \in near}]},
               todo \ {g})
Clusters(rels) == Join({}, {[mem |-> {x}, keys |-> Keys(rels[x[1]], x[2])] : x \in AllTracks(rels)})
ClusterObs(rels, g) == UNION {OfTrack(rels[x[1]], x[2]) : x \in g.mem}

(* ------------------------------ state machine ---------------------------- *)
CONSTANTS Shots, Tracks, Vals, MaxLen
VARIABLES byShot, byTrack, rel, hist
vars == <<byShot, byTrack, rel, hist>>

Init == /\ byShot = {} /\ byTrack = {} /\ rel = {} /\ hist = <<>>

AddObs(s, t, v) ==
  /\ byShot' = {x \in byShot : ~(x[1] = s /\ x[2] = t)} \cup {<<s, t, v>>}
  /\ byTrack' = {x \in byTrack : ~(x[1] = t /\ x[2] = s)} \cup {<<t, s, v>>}
  /\ rel' = Put(rel, s, t, v)
  /\ hist' = Append(hist, [op |-> "add", s |-> s, t |-> t, v |-> v])
DelObs(s, t) ==
  /\ byShot' = {x \in byShot : ~(x[1] = s /\ x[2] = t)}
  /\ byTrack' = {x \in byTrack : ~(x[1] = t /\ x[2] = s)}
  /\ rel' = Del(rel, s, t)
  /\ hist' = Append(hist, [op |-> "remove", s |-> s, t |-> t, v |-> 0])
Narrow(T, S) ==
  /\ byShot' = {x \in byShot : x[1] \in S /\ x[2] \in T}
  /\ byTrack' = {x \in byTrack : x[2] \in S /\ x[1] \in T}
  /\ rel' = Sub(rel, T, S)
  /\ hist' = Append(hist, [op |-> "sub", s |-> SetToSeq(S), t |-> SetToSeq(T), v |-> 0])

Next == /\ Len(hist) < MaxLen
        /\ \/ \E s \in Shots, t \in Tracks, v \in Vals : AddObs(s, t, v)
           \/ \E s \in Shots, t \in Tracks : DelObs(s, t)
           \/ \E T \in SUBSET Tracks, S \in SUBSET Shots : Narrow(T, S)
Spec == Init /\ [][Next]_vars

Mirror == /\ byShot = rel
          /\ byTrack = {<<x[2], x[1], x[3]>> : x \in rel}
OnePerCell == Functional(rel)
CommonSymmetric == \A a \in Shots : \A b \in Shots :
   Common(rel, a, b) = {<<x[1], x[3], x[2]>> : x \in Common(rel, b, a)}
PairsMatchCommon == \A a \in Shots : \A b \in Shots \ {a} :
   LET n == Cardinality(Common(rel, a, b))
       e == {x \in Pairs(rel, Shots, Tracks) : x[1] = {a, b}}
   IN e = (IF n = 0 THEN {} ELSE {<<{a, b}, n>>})
SubIdempotent == \A T \in SUBSET Tracks : Sub(Sub(rel, T, Shots), T, Shots) = Sub(rel, T, Shots)

RelView == rel
Emit == PrintT("@@" \o ToJson([h |-> hist']))
=============================================================================
