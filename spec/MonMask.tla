------------------------------- MODULE MonMask ------------------------------
EXTENDS TraceBase
M == INSTANCE MaskAlg WITH v <- 0
MStart(case) == 0
MStep(case, s, e) ==
  LET n == Len(e.pts)
      K(k) == M!Kept(e.mask, e.seg, Set(e.ign), e.pts[k][1], e.pts[k][2], e.w, e.h, e.o)
      V(m, k) == M!Values(m, e.pts[k][1], e.pts[k][2], e.w, e.h, e.o)
      kept == SelectSeq([k \in 1..n |-> k], LAMBDA k : e.keep[k] = 1)
  IN IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
     ELSE CASE e.op = "mask" ->
                 IF Len(e.keep) # n THEN No("the mask does not have one entry per feature")
                 ELSE IF \E k \in 1..n : e.keep[k] = 1 /\ TRUE \notin K(k) THEN No("a masked feature is kept")
                 ELSE IF \E k \in 1..n : e.keep[k] = 0 /\ FALSE \notin K(k) THEN No("a feature on visible pixels is masked")
                 ELSE Ok(0)
            [] e.op = "bake" ->
                 IF Len(e.seg) > 0 /\ (Len(e.gotseg) # n \/ \E k \in 1..n : e.gotseg[k] \notin V(e.seg, k)) THEN No("a feature has the label of another pixel")
                 ELSE IF Len(e.inst) > 0 /\ (Len(e.gotinst) # n \/ \E k \in 1..n : e.gotinst[k] \notin V(e.inst, k)) THEN No("a feature has the instance of another pixel")
                 ELSE IF (Len(e.seg) = 0 /\ Len(e.gotseg) # 0) \/ (Len(e.inst) = 0 /\ Len(e.gotinst) # 0) THEN No("labels invented")
                 ELSE Ok(0)
            \* e.keep: the mask in force; the arrays hold the indices of the features they came from
            [] e.op = "load" -> IF \A a \in Set(e.arrays) : a = kept THEN Ok(0) ELSE No("masked feature arrays are not the unmasked rows in order")
=============================================================================
