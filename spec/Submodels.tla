------------------------------ MODULE Submodels ------------------------------
(* Splitting a dataset into overlapping submodels.  Images stand on a line    *)
(* (0 = no GPS), a grouping gives each a group, a submodel holds its group and*)
(* everything within the overlap.  A run may stop after any number of         *)
(* submodels; the next one starts over.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, POS, GROUPS, OVER, MAXRUNS
VARIABLES pos, group, over, disk, todo, runs, stopped
vars == <<pos, group, over, disk, todo, runs, stopped>>
Im == 1..N
Gps == {i \in Im : pos[i] # 0}
Dist(i, j) == IF pos[i] > pos[j] THEN pos[i] - pos[j] ELSE pos[j] - pos[i]
Used == {g \in 1..GROUPS : \E i \in Gps : group[i] = g}
Rank(g) == Cardinality({h \in Used : h <= g})
Of(k) == CHOOSE g \in Used : Rank(g) = k
Member(g) == {j \in Gps : \E i \in Gps : group[i] = g /\ Dist(i, j) <= over}
Init == /\ pos \in [Im -> POS] /\ \E i \in Im : pos[i] # 0
        /\ group = [i \in Im |-> 1] /\ over = 0 /\ disk = <<>> /\ todo = 0 /\ runs = <<>> /\ stopped = FALSE
Begin == /\ todo = 0 /\ Len(runs) < MAXRUNS
         /\ \E f \in [Im -> 1..GROUPS], d \in OVER : group' = f /\ over' = d /\ runs' = Append(runs, [group |-> f, over |-> d, stop |-> 99])
         /\ disk' = <<>> /\ todo' = 1 /\ stopped' = FALSE /\ UNCHANGED pos
Write == /\ todo > 0 /\ todo <= Cardinality(Used)
         /\ disk' = Append(disk, Member(Of(todo))) /\ todo' = todo + 1 /\ UNCHANGED <<pos, group, over, runs, stopped>>
Done == todo > Cardinality(Used) /\ todo' = 0 /\ UNCHANGED <<pos, group, over, disk, runs, stopped>>
Stop == /\ todo > 0 /\ todo <= Cardinality(Used) /\ Len(runs) < MAXRUNS
        /\ runs' = [runs EXCEPT ![Len(runs)].stop = todo - 1] /\ todo' = 0 /\ stopped' = TRUE /\ UNCHANGED <<pos, group, over, disk>>
Next == Begin \/ Write \/ Done \/ Stop
Spec == Init /\ [][Next]_vars
Complete == todo = 0 /\ runs # <<>> /\ ~stopped
Cover == Complete => UNION {disk[k] : k \in 1..Len(disk)} = Gps
Own == Complete => \A i \in Gps : i \in disk[Rank(group[i])]
Fresh == Complete => Len(disk) = Cardinality(Used)
Whole == \A k \in 1..Len(disk) : disk[k] # {}
Overlap == Complete => \A i, j \in Gps : Dist(i, j) <= over => \E k \in 1..Len(disk) : {i, j} \subseteq disk[k]
Emit == (Complete /\ Len(runs) = MAXRUNS) => PrintT("@@" \o ToJson([pos |-> pos, runs |-> runs]))
=============================================================================
