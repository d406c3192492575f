------------------------------ MODULE DenseRun ------------------------------
(* Computing depth maps in three passes over the shots (raw, clean, pruned),  *)
(* each pass keeping what an earlier run stored.  A pass fails for the shots  *)
(* one of whose pictures can not be read; a run may be stopped just before    *)
(* any of its results is stored, and the next one carries on.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, GRAPHS, MAXRUNS
VARIABLES g, raw, clean, pru, phase, i, runs, fail
vars == <<g, raw, clean, pru, phase, i, runs, fail>>
Shots == 1..N
Nb(s) == g[s]
NbSet(s) == {g[s][k] : k \in 1..Len(g[s])}
Views(s) == {s, Head(g[s])}
HasNb(s) == g[s] # <<>>
None == [s \in Shots |-> {}]
Init == g \in GRAPHS /\ raw = {} /\ clean = None /\ pru = None /\ phase = 0 /\ i = 1 /\ runs = <<>> /\ fail = {}
Begin == /\ phase = 0 /\ Len(runs) < MAXRUNS
         /\ \E f \in {{}} \cup {{s} : s \in Shots} : fail' = f /\ runs' = Append(runs, [fail |-> f, stop |-> <<0, 0>>, raw |-> {}, clean |-> None, pru |-> None])
         /\ phase' = 1 /\ i' = 1 /\ UNCHANGED <<g, raw, clean, pru>>
(* what handling the shot i stores in this pass: the set it is made of *)
Made(s) == CASE phase = 1 -> IF s \in raw \/ ~HasNb(s) \/ Views(s) \cap fail # {} THEN {} ELSE {s}
             [] phase = 2 -> IF clean[s] # {} \/ ~HasNb(s) \/ s \notin raw THEN {} ELSE {s} \cup (NbSet(s) \cap raw)
             [] phase = 3 -> IF pru[s] # {} \/ ~HasNb(s) \/ clean[s] = {} THEN {}
                             ELSE LET v == {s} \cup {n \in NbSet(s) : clean[n] # {}} IN IF v \cap fail # {} THEN {} ELSE v
Advance == IF i < N THEN i' = i + 1 /\ phase' = phase ELSE i' = 1 /\ phase' = phase + 1
Work == /\ phase \in 1..3
        /\ LET m == Made(i) IN
           /\ raw' = IF phase = 1 THEN raw \cup m ELSE raw
           /\ clean' = IF phase = 2 /\ m # {} THEN [clean EXCEPT ![i] = m] ELSE clean
           /\ pru' = IF phase = 3 /\ m # {} THEN [pru EXCEPT ![i] = m] ELSE pru
        /\ Advance /\ UNCHANGED <<g, runs, fail>>
Record(st) == runs' = [runs EXCEPT ![Len(runs)].stop = st, ![Len(runs)].raw = raw, ![Len(runs)].clean = clean, ![Len(runs)].pru = pru]
Finish == phase = 4 /\ Record(<<0, 0>>) /\ phase' = 0 /\ UNCHANGED <<g, raw, clean, pru, i, fail>>
Crash == /\ phase \in 1..3 /\ Made(i) # {} /\ Len(runs) < MAXRUNS
         /\ Record(<<phase, i>>) /\ phase' = 0 /\ i' = 1 /\ UNCHANGED <<g, raw, clean, pru, fail>>
Next == Begin \/ Work \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars
Ended == phase = 0 /\ runs # <<>> /\ runs[Len(runs)].stop = <<0, 0>>
NoFail == \A k \in 1..Len(runs) : runs[k].fail = {}
Chain == \A s \in Shots : (pru[s] # {} => clean[s] # {}) /\ (clean[s] # {} => s \in raw)
Own == \A s \in Shots : (clean[s] # {} => s \in clean[s]) /\ (pru[s] # {} => s \in pru[s])
(* stops alone never change the result *)
Same == (Ended /\ NoFail) => \A s \in Shots : IF HasNb(s) THEN s \in raw /\ clean[s] = {s} \cup NbSet(s) /\ pru[s] = clean[s]
                                              ELSE s \notin raw /\ clean[s] = {} /\ pru[s] = {}
Emit == (Ended /\ Len(runs) = MAXRUNS) => PrintT("@@" \o ToJson([g |-> g, runs |-> runs]))
=============================================================================
