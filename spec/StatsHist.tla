----------------------------- MODULE StatsHist -----------------------------
(* The statistics of a set of reconstructions are gathered one after another: *)
(* the histogram of the lengths of tracks, the counts, and the bounding box.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS LENS, POS, MAXPTS, MAXRECS
VARIABLES recs, k, hist, points, box
vars == <<recs, k, hist, points, box>>
Rec == [lens : UNION {[1..n -> LENS] : n \in 0..MAXPTS}, pos : POS]
Init == /\ \E n \in 1..MAXRECS : recs \in [1..n -> Rec]
        /\ k = 0 /\ hist = [l \in LENS |-> 0] /\ points = 0 /\ box = <<>>
Gather == /\ k < Len(recs) /\ k' = k + 1
          /\ hist' = [l \in LENS |-> hist[l] + Cardinality({i \in DOMAIN recs[k + 1].lens : recs[k + 1].lens[i] = l})]
          /\ points' = points + Len(recs[k + 1].lens)
          /\ box' = IF box = <<>> THEN <<recs[k + 1].pos, recs[k + 1].pos>>
                    ELSE <<IF recs[k + 1].pos < box[1] THEN recs[k + 1].pos ELSE box[1], IF recs[k + 1].pos > box[2] THEN recs[k + 1].pos ELSE box[2]>>
          /\ UNCHANGED recs
Next == Gather
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Complete == Sum(hist, LENS) = points
Observations == Sum([l \in LENS |-> l * hist[l]], LENS) = FoldLeft(LAMBDA s, r : s + FoldLeft(LAMBDA a, b : a + b, 0, r.lens), 0, SubSeq(recs, 1, k))
Boxed == \A i \in 1..k : box[1] <= recs[i].pos /\ recs[i].pos <= box[2]
Tight == k > 0 => box[1] \in {recs[i].pos : i \in 1..k} /\ box[2] \in {recs[i].pos : i \in 1..k}
Emit == k = Len(recs) => PrintT("@@" \o ToJson([recs |-> [i \in 1..Len(recs) |-> [lens |-> recs[i].lens, pos |-> recs[i].pos + 10]]]))
\* configuration files have no negative numbers
Left == {0 - 2, 0 - 1, 3}
=============================================================================
