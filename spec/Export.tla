------------------------------- MODULE Export -------------------------------
(* Writing reconstructions to a format that refers to images, features and    *)
(* points by their position in the file.  Each image is in at most one        *)
(* reconstruction; a track may have a point in both.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NI, NT, RECS, ONLYS
VARIABLES rec, obs, pts, only, fi, fp, cur
vars == <<rec, obs, pts, only, fi, fp, cur>>
Im == 1..NI
Tr == 1..NT
Obs(i) == {t \in Tr : <<i, t>> \in obs}
\* the features of an image: one that belongs to no track, then its tracks
Feat(i, t) == Cardinality({u \in Obs(i) : u <= t})
Init == /\ rec \in [Im -> 0..RECS] /\ obs \in SUBSET (Im \X Tr) /\ only \in ONLYS
        /\ pts \in SUBSET ((1..RECS) \X Tr)
        /\ fi = <<>> /\ fp = <<>> /\ cur = <<1, 1>>
Listed(i) == rec[i] # 0 /\ i \in only
Image == /\ cur[1] <= NI /\ cur' = <<cur[1] + 1, 1>>
         /\ fi' = IF Listed(cur[1]) THEN Append(fi, cur[1]) ELSE fi
         /\ UNCHANGED <<rec, obs, pts, only, fp>>
Slot(k) == <<((k - 1) \div NT) + 1, ((k - 1) % NT) + 1>>
At(i) == CHOOSE k \in 1..Len(fi) : fi[k] = i
SeqOf(S) == LET RECURSIVE f(_) f(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o f(T \ {m}) IN f(S)
Views(p) == LET ims == SeqOf({i \in Im : Listed(i) /\ rec[i] = p[1] /\ <<i, p[2]>> \in obs}) IN [k \in 1..Len(ims) |-> <<At(ims[k]), Feat(ims[k], p[2])>>]
Point == /\ cur[1] > NI /\ cur[2] <= RECS * NT /\ cur' = <<cur[1], cur[2] + 1>>
         /\ fp' = IF Slot(cur[2]) \in pts THEN Append(fp, [p |-> Slot(cur[2]), views |-> Views(Slot(cur[2]))]) ELSE fp
         /\ UNCHANGED <<rec, obs, pts, only, fi>>
Next == Image \/ Point
Spec == Init /\ [][Next]_vars
Done == cur[1] > NI /\ cur[2] > RECS * NT
\* the reader
Read == {<<fp[k].p, fi[fp[k].views[v][1]], fp[k].views[v][2]>> : <<k, v>> \in {<<a, b>> \in (1..Len(fp)) \X Im : b <= Len(fp[a].views)}}
Truth == {<<p, i, Feat(i, p[2])>> : <<p, i>> \in {<<a, b>> \in pts \X Im : Listed(b) /\ rec[b] = a[1] /\ <<b, a[2]>> \in obs}}
Faithful == Done => Read = Truth
Dense == \A k \in 1..Len(fp) : \A v \in 1..Len(fp[k].views) : fp[k].views[v][1] \in 1..Len(fi)
Emit == Done => PrintT("@@" \o ToJson([rec |-> rec, obs |-> SeqOf({i * 10 + t : <<i, t>> \in obs}), pts |-> SeqOf({p[1] * 10 + p[2] : p \in pts}), only |-> SeqOf(only)]))
O1 == {{1, 2, 3}, {1, 3}, {2}}
=============================================================================
