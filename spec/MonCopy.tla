------------------------------- MODULE MonCopy ------------------------------
(* State: the attribute rows of every object, {} once destroyed.             *)
EXTENDS TraceBase
PR == INSTANCE PersistRec WITH P <- {}, V <- {}, None <- 0, mem <- 0, disk <- 0, saved <- 0
MStart(case) == <<>>
Rows(seq) == {<<r[1], r[2], r[3]>> : r \in Set(seq)}
Plain(rows) == {r \in rows : SubSeq(r[1], 1, 3) # "obs"}
First(S) == CHOOSE x \in S : TRUE
Diff(w, g, tol) == IF PR!Missing(w, g) # {} THEN "lost " \o First(PR!Missing(w, g))
                   ELSE IF PR!Extra(w, g) # {} THEN "invented " \o First(PR!Extra(w, g))
                   ELSE IF PR!Differs(w, g, tol) # {} THEN "changed " \o First(PR!Differs(w, g, tol)) ELSE ""
MStep(case, s, e) ==
  IF e.exc # "" THEN No(case.kind \o ": " \o e.op \o " failed: " \o e.exc)
  ELSE LET o == [k \in 1..Len(e.objs) |-> Rows(e.objs[k])]
           others == {k \in 1..Len(s) : k # e.i /\ Diff(s[k], o[k], 0) # ""}
           src == IF e.full THEN s[e.i] ELSE Plain(s[e.i])
  IN IF e.op = "new" THEN Ok(o)
     ELSE IF others # {} THEN No(case.kind \o ": " \o e.op \o " on one object affects another: " \o Diff(s[First(others)], o[First(others)], 0))
     ELSE IF e.op = "drop" THEN Ok(o)
     ELSE IF e.op = "copy" THEN
        IF Diff(s[e.i], o[e.i], 0) # "" THEN No(case.kind \o ": copying modifies the original: " \o Diff(s[e.i], o[e.i], 0))
        ELSE IF Diff(src, o[Len(o)], e.tol) # "" THEN No(case.kind \o ": a copy differs from the original: " \o Diff(src, o[Len(o)], e.tol))
        ELSE Ok(o)
     ELSE (* set *)
        IF ~e.free /\ Diff({r \in s[e.i] : r[1] # e.touch} \cup Rows(e.rows), o[e.i], e.tol) # ""
          THEN No(case.kind \o ": writing an attribute: " \o Diff({r \in s[e.i] : r[1] # e.touch} \cup Rows(e.rows), o[e.i], e.tol))
        ELSE IF e.free /\ PR!SameRows(s[e.i], o[e.i], 0) THEN No(case.kind \o ": an edit had no effect")
        ELSE Ok(o)
=============================================================================
