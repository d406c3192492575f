------------------------------- MODULE CopyIso ------------------------------
(* Values held in cells.  Copying an object allocates fresh cells; writing   *)
(* and destroying act on one object only.  abs is what a user expects, cell  *)
(* and mem what an implementation keeps.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fields, Vals, MaxObj, MaxLen
VARIABLES abs, cell, mem, alive, hist
vars == <<abs, cell, mem, alive, hist>>
N == Len(abs)
v0 == CHOOSE v \in Vals : TRUE
Init == /\ abs = <<[f \in Fields |-> v0]>> /\ cell = <<[f \in Fields |-> <<1, f>>]>>
        /\ mem = [c \in {1} \X Fields |-> v0] /\ alive = {1} /\ hist = <<>>
Log(o, i, f, v) == hist' = Append(hist, [op |-> o, i |-> i, f |-> f, v |-> v])
Copy(i) == /\ i \in alive /\ N < MaxObj
           /\ abs' = Append(abs, abs[i])
           /\ cell' = Append(cell, [f \in Fields |-> <<N + 1, f>>])
           /\ mem' = [c \in DOMAIN mem \cup ({N + 1} \X Fields) |-> IF c[1] = N + 1 THEN mem[cell[i][c[2]]] ELSE mem[c]]
           /\ alive' = alive \cup {N + 1}
           /\ Log("copy", i, "", 0)
Write(i, f, v) == /\ i \in alive /\ abs[i][f] # v
                  /\ abs' = [abs EXCEPT ![i][f] = v]
                  /\ mem' = [mem EXCEPT ![cell[i][f]] = v]
                  /\ UNCHANGED <<cell, alive>>
                  /\ Log("set", i, f, v)
Drop(i) == /\ i \in alive /\ Cardinality(alive) > 1
           /\ alive' = alive \ {i}
           /\ mem' = [c \in {d \in DOMAIN mem : \A f \in Fields : cell[i][f] # d} |-> mem[c]]
           /\ UNCHANGED <<abs, cell>>
           /\ Log("drop", i, "", 0)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E i \in 1..N : Copy(i) \/ Drop(i)
           \/ \E i \in 1..N, f \in Fields, v \in Vals : Write(i, f, v)
Spec == Init /\ [][Next]_vars
Isolated == \A i \in alive, f \in Fields : cell[i][f] \in DOMAIN mem /\ mem[cell[i][f]] = abs[i][f]
CopyEqual == [][\A i \in 1..N : Copy(i) => abs'[N + 1] = abs'[i]]_vars
OneAtATime == [][\A i \in 1..N : (abs'[i] # abs[i]) => \A j \in 1..N \ {i} : abs'[j] = abs[j]]_vars
Emit == Len(hist') = MaxLen => PrintT("@@" \o ToJson(hist'))
=============================================================================
