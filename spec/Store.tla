------------------------------- MODULE Store --------------------------------
(* The artefact store behind a dataset: every (kind, name) is its own        *)
(* register.  `handles` stand for DataSet objects: several may be open on    *)
(* the same folder, so nothing may be remembered between calls.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kinds, Names, Values, MaxLen, None
VARIABLES disk, hist
svars == <<disk, hist>>
Keys == Kinds \X Names

SInit == disk = [k \in Keys |-> None] /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Save(k, v) == disk' = [disk EXCEPT ![k] = v] /\ Log([op |-> "save", kind |-> k[1], name |-> k[2], v |-> v])
Load(k) == UNCHANGED disk /\ Log([op |-> "load", kind |-> k[1], name |-> k[2], v |-> 0])
Has(k) == UNCHANGED disk /\ Log([op |-> "has", kind |-> k[1], name |-> k[2], v |-> 0])
Reopen == UNCHANGED disk /\ Log([op |-> "reopen", kind |-> "", name |-> "", v |-> 0])
SNext == /\ Len(hist) < MaxLen
         /\ \/ \E k \in Keys : Load(k) \/ Has(k) \/ \E v \in Values : Save(k, v)
            \/ Reopen
Spec == SInit /\ [][SNext]_svars

(* what a history implies, computed independently of the state *)
Writes(h, k) == {i \in 1..Len(h) : h[i].op = "save" /\ <<h[i].kind, h[i].name>> = k}
LastOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Implied(h, k) == IF Writes(h, k) = {} THEN None ELSE h[LastOf(Writes(h, k))].v
LastWriteWins == \A k \in Keys : disk[k] = Implied(hist, k)
Frame == [][\A k \in Keys : disk'[k] # disk[k] => /\ hist'[Len(hist')].op = "save"
                                                   /\ <<hist'[Len(hist')].kind, hist'[Len(hist')].name>> = k]_svars
Useful == Len(hist) = MaxLen /\ hist[MaxLen].op \in {"load", "has"} /\ Cardinality({i \in 1..MaxLen : hist[i].op = "save"}) >= 2
Emit == Useful => PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
