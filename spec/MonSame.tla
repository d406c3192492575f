------------------------------ MODULE MonSame -------------------------------
(* Two sets of attribute rows must agree (numbers within e.tol).             *)
EXTENDS TraceBase
PR == INSTANCE PersistRec WITH P <- {}, V <- {}, None <- 0, mem <- 0, disk <- 0, saved <- 0
MStart(case) == 0
First(S) == CHOOSE x \in S : TRUE
MStep(case, s, e) ==
  LET w == Set(e.want)
      g == Set(e.got)
  IN IF e.exc # "" THEN No(e.what \o " failed: " \o e.exc)
     ELSE IF Cardinality(PR!Paths(g)) # Cardinality(g) \/ Cardinality(PR!Paths(w)) # Cardinality(w)
       THEN No(e.what \o ": an attribute has two values")
     ELSE IF PR!Missing(w, g) # {} THEN No(e.what \o ": lost " \o First(PR!Missing(w, g)))
     ELSE IF PR!Extra(w, g) # {} THEN No(e.what \o ": invented " \o First(PR!Extra(w, g)))
     ELSE IF PR!Differs(w, g, e.tol) # {} THEN No(e.what \o ": changed " \o First(PR!Differs(w, g, e.tol)))
     ELSE Ok(s)
=============================================================================
