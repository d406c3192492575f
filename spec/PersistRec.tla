----------------------------- MODULE PersistRec -----------------------------
(* A reconstruction as a set of attribute rows <<path, numbers, text>> and   *)
(* two stores of it: memory and disk.  Saving copies memory to disk, loading *)
(* copies disk to memory; whatever happens in between, a load returns what   *)
(* was saved last.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs1(x) == IF x < 0 THEN -x ELSE x
NumsEqual(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs1(a[k] - b[k]) <= tol
Paths(rows) == {r[1] : r \in rows}
Row(rows, p) == CHOOSE r \in rows : r[1] = p
(* paths on which two sets of rows differ *)
Missing(w, g) == Paths(w) \ Paths(g)
Extra(w, g) == Paths(g) \ Paths(w)
Differs(w, g, tol) == {p \in Paths(w) \cap Paths(g) :
   ~(NumsEqual(Row(w, p)[2], Row(g, p)[2], tol) /\ Row(w, p)[3] = Row(g, p)[3])}
SameRows(w, g, tol) == Missing(w, g) = {} /\ Extra(w, g) = {} /\ Differs(w, g, tol) = {}

CONSTANTS P, V, None
VARIABLES mem, disk, saved
vars == <<mem, disk, saved>>
Contents == UNION {[S -> V] : S \in SUBSET P}
RowsOf(f) == {<<p, <<f[p]>>, "">> : p \in DOMAIN f}
Init == mem = <<>> /\ disk = None /\ saved = None
Edit == \E f \in Contents : mem' = f /\ UNCHANGED <<disk, saved>>
Save == disk' = RowsOf(mem) /\ saved' = mem /\ UNCHANGED mem
Load == /\ disk # None
        /\ mem' = [p \in Paths(disk) |-> Row(disk, p)[2][1]]
        /\ UNCHANGED <<disk, saved>>
Next == Edit \/ Save \/ Load
Spec == Init /\ [][Next]_vars
LoadReturnsSaved == [][Load => SameRows(RowsOf(mem'), RowsOf(saved), 0)]_vars
RowsFaithful == \A f \in Contents : SameRows(RowsOf(mem), RowsOf(f), 0) <=> mem = f
=============================================================================
