------------------------------ MODULE PairSel -------------------------------
(* Selection of the image pairs to match.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

(* ------------------------------ pure part -------------------------------- *)
(* k nearest of the candidates C of r under the distance D; lim < 0 means no *)
(* limit, k = 0 means all.  Ties leave a choice, hence must / may.           *)
Others(r, C) == C \ {r}
MustOf(r, C, k, lim, D(_, _)) ==
  {c \in Others(r, C) : /\ lim < 0 \/ D(r, c) <= lim
                        /\ k = 0 \/ Cardinality({x \in Others(r, C) : D(r, x) <= D(r, c)}) <= k}
MayOf(r, C, k, lim, D(_, _)) ==
  {c \in Others(r, C) : /\ lim < 0 \/ D(r, c) <= lim
                        /\ k = 0 \/ Cardinality({x \in Others(r, C) : D(r, x) < D(r, c)}) < k}
MustPairs(R, C, k, lim, D(_, _)) == UNION {{{r, c} : c \in MustOf(r, C, k, lim, D)} : r \in R}
MayPairs(R, C, k, lim, D(_, _)) == UNION {{{r, c} : c \in MayOf(r, C, k, lim, D)} : r \in R}

AllPairs(R, C) == {{r, c} : r \in R, c \in C} \ {{x} : x \in R \cup C}

(* neighbours in the sequence order: positions differ by at most half of k   *)
Half(k) == (k + 1) \div 2
At(s, i) == s[i]
MustOrder(rs, cs, k) ==
  {{rs[i], cs[j]} : i \in 1..Len(rs), j \in 1..Len(cs)} \cap
  {{rs[p[1]], cs[p[2]]} : p \in {q \in (1..Len(rs)) \X (1..Len(cs)) :
        /\ q[1] - q[2] < Half(k) /\ q[2] - q[1] < Half(k) /\ rs[q[1]] # cs[q[2]]}}
MayOrder(rs, cs, k) ==
  {{rs[p[1]], cs[p[2]]} : p \in {q \in (1..Len(rs)) \X (1..Len(cs)) :
        /\ q[1] - q[2] <= Half(k) /\ q[2] - q[1] <= Half(k) /\ rs[q[1]] # cs[q[2]]}}

(* an edge from a point to its only nearest neighbour belongs to every       *)
(* Delaunay triangulation                                                    *)
NNEdges(P, D(_, _)) ==
  {{p, q} : p \in P, q \in P} \cap
  {{x[1], x[2]} : x \in {y \in P \X P : y[1] # y[2] /\ \A z \in P \ {y[1], y[2]} : D(y[1], z) > D(y[1], y[2])}}

(* every selected pair once, starting with a reference image                 *)
OrderedOk(pairs, refs, out) ==
  /\ {{p[1], p[2]} : p \in {out[i] : i \in 1..Len(out)}} = pairs
  /\ Cardinality(pairs) = Len(out)
  /\ \A i \in 1..Len(out) : out[i][1] \in refs

(* ------------------------- ordering as a state machine ------------------- *)
(* The pairs are handed out image by image, following a chain of unfinished  *)
(* references so that consecutive pairs share images.                        *)
CONSTANTS Images
VARIABLES pairs, refs, remaining, cur, ordered
vars == <<pairs, refs, remaining, cur, ordered>>
Nobody == "-"
Neigh(im) == {x \in Images : {im, x} \in pairs /\ x # im}
Init == /\ refs \in SUBSET Images
        /\ pairs \in SUBSET {e \in SUBSET Images : Cardinality(e) = 2}
        /\ \A e \in pairs : e \cap refs # {}
        /\ remaining = refs /\ cur = Nobody /\ ordered = {}
Pick == /\ cur = Nobody /\ remaining # {}
        /\ \E im \in remaining : cur' = im /\ remaining' = remaining \ {im}
        /\ UNCHANGED <<pairs, refs, ordered>>
Serve == /\ cur # Nobody
         /\ LET new == {<<cur, x>> : x \in {y \in Neigh(cur) : <<y, cur>> \notin ordered}}
                follow == {x[2] : x \in new} \cap remaining
            IN /\ ordered' = ordered \cup new
               /\ IF follow = {} THEN cur' = Nobody /\ remaining' = remaining
                  ELSE \E im \in follow : cur' = im /\ remaining' = remaining \ {im}
         /\ UNCHANGED <<pairs, refs>>
Next == Pick \/ Serve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == cur = Nobody /\ remaining = {}
OnceEach == \A x \in ordered : <<x[2], x[1]>> \notin ordered
FirstIsRef == \A x \in ordered : x[1] \in refs
Complete == Finished => {{x[1], x[2]} : x \in ordered} = pairs
Ends == <>Finished
Emit == (cur = Nobody /\ remaining = refs) =>
        PrintT("@@" \o ToJson([refs |-> SetToSeq(refs), pairs |-> SetToSeq({SetToSeq(e) : e \in pairs})]))

(* ---------------------- all small nearest-neighbour inputs --------------- *)
CONSTANTS Places, Ks
SInit == /\ pairs \in [Images -> Places]
         /\ refs \in SUBSET Images \ {{}}
         /\ remaining \in SUBSET Images \ {{}}
         /\ cur \in Ks
         /\ ordered \in BOOLEAN
SNext == UNCHANGED vars
D1(a, b) == (pairs[a] - pairs[b]) * (pairs[a] - pairs[b])
Lim == IF ordered THEN 1 ELSE -1
MustInMay == MustPairs(refs, remaining, cur, Lim, D1) \subseteq MayPairs(refs, remaining, cur, Lim, D1)
EnoughFound == cur > 0 /\ Lim < 0 => \A r \in refs :
     LET n == Cardinality(Others(r, remaining)) IN
     Cardinality(MayOf(r, remaining, cur, Lim, D1)) >= IF n < cur THEN n ELSE cur
SEmit == PrintT("@@" \o ToJson([pos |-> pairs, refs |-> SetToSeq(refs), cands |-> SetToSeq(remaining),
                                k |-> cur, lim |-> Lim]))
=============================================================================
