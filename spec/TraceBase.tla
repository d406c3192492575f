----------------------------- MODULE TraceBase -----------------------------
(* Generic monitor: every recorded case is an initial state, every recorded *)
(* event is one step.  A concrete monitor module EXTENDS this one and its   *)
(* configuration substitutes                                                *)
(*     Start <- MStart      MStart(case)          initial abstract state    *)
(*     Step  <- MStep       MStep(case, st, e)    [why |-> "", st |-> s]    *)
(* where why = "" means that the event is allowed by the specification, and *)
(* any other string names the clause of the specification it breaks.        *)
(* Verdicts are total: a rejected event is printed and ends its case; the   *)
(* number of distinct states shows that every other event was consumed.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Start(_), Step(_, _, _)
VARIABLES caseIdx, evIdx, mst, rejected

Cases == JsonDeserialize("cases.json")

TInit == /\ caseIdx \in 1..Len(Cases)
         /\ evIdx = 0
         /\ mst = Start(Cases[caseIdx])
         /\ rejected = ""

TNext == /\ rejected = ""
         /\ evIdx < Len(Cases[caseIdx].events)
         /\ LET r == Step(Cases[caseIdx], mst, Cases[caseIdx].events[evIdx + 1])
            IN  /\ evIdx' = evIdx + 1
                /\ caseIdx' = caseIdx
                /\ rejected' = r.why
                /\ mst' = IF r.why = "" THEN r.st ELSE mst
                /\ IF r.why = "" THEN TRUE
                   ELSE PrintT("@@FAIL " \o ToJson([c |-> caseIdx, i |-> evIdx + 1, why |-> r.why]))

(* helpers used by the monitors *)
Ok(s) == [why |-> "", st |-> s]
No(w) == [why |-> w, st |-> 0]
Set(seq) == {seq[k] : k \in 1..Len(seq)}
Distinct(seq) == Cardinality(Set(seq)) = Len(seq)
Total(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
