------------------------------- MODULE Ransac --------------------------------
(* Robust estimation: minimal samples give models, the best so far is kept      *)
(* with the members it explains, then improved on samples of its members; the   *)
(* search may stop early once the share of members makes another hit likely.    *)
(* Explains[m] is any family of sets (model m explains these samples).          *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, MODELS, ITER, MIN, LO
Samples == 1..N
VARIABLES explains, i, k, best, tried, stop, prev
vars == <<explains, i, k, best, tried, stop, prev>>
None == [score |-> 0, inl |-> {}, model |-> 0, lo |-> 0]
Init == /\ explains \in [1..MODELS -> SUBSET Samples] /\ i = 0 /\ k = 0 /\ best = None /\ tried = {} /\ stop = FALSE /\ prev = None
Score(m) == Cardinality(explains[m])
Keep(s) == IF s.score < best.score THEN best ELSE s
(* a minimal sample gives model m *)
Try(m) == LET s == [score |-> Score(m), inl |-> explains[m], model |-> m, lo |-> m]
              b == Keep(s)
          IN /\ i < ITER /\ ~stop /\ k = 0
             /\ prev' = best /\ best' = b /\ tried' = tried \cup {m}
             /\ i' = i + 1
             /\ k' = IF s.score = b.score /\ Cardinality(s.inl) >= MIN THEN LO ELSE 0
             /\ UNCHANGED <<explains, stop>>
(* local optimisation on members of the best gives model m *)
Improve(m) == LET s == [score |-> Score(m), inl |-> explains[m], model |-> best.model, lo |-> m]
              IN /\ k > 0 /\ prev' = best /\ best' = IF best.score < s.score THEN s ELSE best
                 /\ tried' = tried \cup {m} /\ k' = k - 1 /\ UNCHANGED <<explains, i, stop>>
Stop == /\ k = 0 /\ i > 0 /\ 2 * best.score >= N /\ stop' = TRUE /\ prev' = best /\ UNCHANGED <<explains, i, k, best, tried>>
Next == (\E m \in 1..MODELS : Try(m) \/ Improve(m)) \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Members == best.lo # 0 => /\ best.inl = explains[best.lo] /\ best.score = Cardinality(best.inl)
Greatest == \A m \in tried : Score(m) <= best.score
Grows == best.score >= prev.score
Better == best.model # 0 => Score(best.model) <= best.score
Ends == <>[](stop \/ (i = ITER /\ k = 0))
=============================================================================
