------------------------------ MODULE GcpBook ------------------------------
(* The control points of the annotation tool: points are added with fresh     *)
(* names, annotated once per image, removed, saved and loaded.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Shots, LEN, Files
VARIABLES pts, given, next, disk, log
vars == <<pts, given, next, disk, log>>
None == [id |-> "none", obs |-> <<>>, geo |-> 0]
Init == pts = <<>> /\ given = {} /\ next = 0 /\ disk \in Files /\ log = <<<<"disk", IF disk = <<>> THEN "no" ELSE "yes", "", 0>>>>
At(id) == CHOOSE i \in 1..Len(pts) : pts[i].id = id
Ids == {pts[i].id : i \in 1..Len(pts)}
\* names are numbers, a name that is taken is skipped
Fresh == CHOOSE n \in next..(next + Len(pts)) : ToString(n) \notin Ids /\ \A m \in next..(n - 1) : ToString(m) \in Ids
Seen(p, s) == \E k \in 1..Len(p.obs) : p.obs[k] = s
Do(op, a, b, g) == Len(log) <= LEN /\ log' = Append(log, <<op, a, b, g>>)
Add == /\ Do("add", ToString(Fresh), "", 0)
       /\ pts' = Append(pts, [id |-> ToString(Fresh), obs |-> <<>>, geo |-> 0])
       /\ given' = given \cup {ToString(Fresh)} /\ next' = Fresh + 1 /\ UNCHANGED disk
Rem == \E id \in Ids \cup {"x"} :
       /\ Do("rem", id, "", 0)
       /\ pts' = SelectSeq(pts, LAMBDA p : p.id # id) /\ UNCHANGED <<given, next, disk>>
Obs == \E id \in Ids, s \in Shots, g \in {0, 1} :
       /\ ~Seen(pts[At(id)], s) /\ Do("obs", id, s, g)
       /\ pts' = [pts EXCEPT ![At(id)] = [@ EXCEPT !.obs = Append(@, s), !.geo = IF g = 1 THEN 1 ELSE @]]
       /\ UNCHANGED <<given, next, disk>>
Unobs == \E id \in Ids, s \in Shots, g \in {0, 1} :
       /\ Do("unobs", id, s, g)
       /\ pts' = [pts EXCEPT ![At(id)] = [@ EXCEPT !.obs = SelectSeq(@, LAMBDA x : x # s), !.geo = IF g = 1 THEN 0 ELSE @]]
       /\ UNCHANGED <<given, next, disk>>
Save == Do("save", "", "", 0) /\ disk' = pts /\ UNCHANGED <<pts, given, next>>
Load == disk # <<>> /\ Do("load", "", "", 0) /\ pts' = disk /\ UNCHANGED <<given, next, disk>>
Next == Add \/ Rem \/ Obs \/ Unobs \/ Save \/ Load
Spec == Init /\ [][Next]_vars
Names == \A i, j \in 1..Len(pts) : pts[i].id = pts[j].id => i = j
OnePerImage == \A i \in 1..Len(pts) : \A k, l \in 1..Len(pts[i].obs) : pts[i].obs[k] = pts[i].obs[l] => k = l
NeverReused == Len(log) > 1 /\ log[Len(log)][1] = "add" => Cardinality(given) = Cardinality({k \in 1..Len(log) : log[k][1] = "add"})
RoundTrip == [][(disk # <<>> /\ pts' = disk /\ log'[Len(log')][1] = "load") => disk' = pts']_vars
Emit == Len(log) = LEN + 1 => PrintT("@@" \o ToJson(log))
F1 == {<<>>, <<[id |-> "0", obs |-> <<"s1">>, geo |-> 1], [id |-> "m", obs |-> <<>>, geo |-> 1]>>}
=============================================================================
