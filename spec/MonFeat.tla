------------------------------ MODULE MonFeat -------------------------------
(* Judge of features extraction: order of events of the producer/consumer run, *)
(* stored features of whole runs, results of the parallel map.                 *)
EXTENDS TraceBase
MStart(case) == [loaded |-> {}, saved |-> {}, words |-> {}]
SeqCount(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
QueueStep(case, s, e) ==
  LET Held == Cardinality(s.loaded \ s.saved)
      Bound == Max2(2, case.cap) + case.procs + case.readers
  IN CASE e.op = "load" -> IF e.i \notin Set(case.images) THEN No("an unknown image is read")
                           ELSE IF e.i \in s.loaded THEN No("an image is read twice")
                           ELSE IF case.skips = 0 /\ Held + 1 > Bound THEN No("more images in memory than the limits allow")
                           ELSE Ok([s EXCEPT !.loaded = @ \cup {e.i}])
       [] e.op = "save" -> IF e.i \notin s.loaded THEN No("features saved for an image not read")
                           ELSE IF e.i \in s.saved THEN No("an image is processed twice")
                           ELSE IF e.i \notin Set(case.need) THEN No("features of a finished image are overwritten")
                           ELSE Ok([s EXCEPT !.saved = @ \cup {e.i}])
       [] e.op = "words" -> IF case.words = 0 THEN No("words saved although not needed")
                            ELSE IF e.i \notin s.saved \/ e.i \in s.words THEN No("words saved twice or before the features")
                            ELSE Ok([s EXCEPT !.words = @ \cup {e.i}])
       [] e.op = "nosave" -> Ok(s)
       [] e.op = "hang" -> No("features extraction hangs")
       [] e.op = "end" ->
            IF Len(case.fail) > 0 /\ e.i # "" /\ \E k \in 1..Len(case.failname) : e.i = "OSError " \o case.failname[k] THEN Ok(s)
            ELSE IF e.i # "" THEN No("features extraction failed: " \o e.i)
            ELSE IF \E x \in Set(case.need) : x \notin s.saved /\ x \notin Set(case.fail) THEN No("an image was never processed")
            ELSE IF case.words = 1 /\ \E x \in Set(case.need) : x \notin s.words /\ x \notin Set(case.fail) THEN No("the words of an image were never saved")
            ELSE IF \E x \in Set(case.fail) : x \in Set(case.need) /\ x \notin s.saved THEN No("a failure to load or save passed silently")
            ELSE Ok(s)
ImageStep(s, e) ==
  LET ext(x) == {k \in 1..Len(e.extracted) : e.extracted[k] = x}
      most(x) == Cardinality({k \in ext(x) : e.visible[k] > 0})
      least(x) == Cardinality({k \in ext(x) : e.visible[k] = 1})
      (* the j-th smallest distance of row r *)
      rank(r, w) == Cardinality({k \in 1..Len(e.dist[r]) : e.dist[r][k] < e.dist[r][w + 1]})
      rankmax(r, w) == Cardinality({k \in 1..Len(e.dist[r]) : e.dist[r][k] <= e.dist[r][w + 1]})
  IN IF \E x \in Set(e.stored) : SeqCount(e.stored, x) > most(x) THEN No("a stored feature was not extracted, is masked, or mixes rows")
     ELSE IF \E x \in Set(e.extracted) : SeqCount(e.stored, x) < least(x) THEN No("an extracted visible feature is not stored")
     ELSE IF \E k \in 1..(Len(e.sizes) - 1) : e.sizes[k] > e.sizes[k + 1] THEN No("stored features are not by increasing size")
     ELSE IF e.report # Len(e.stored) THEN No("the report does not count the features")
     ELSE IF e.mustkeep = 1 /\ e.rewritten = 1 THEN No("existing features were recomputed")
     ELSE IF \E k \in 1..Len(e.inside) : e.inside[k] = 0 THEN No("a feature lies outside the image")
     ELSE IF \E k \in 1..Len(e.colors) : e.colors[k] # e.pixels[k] THEN No("a feature has the colour of another pixel")
     ELSE IF \E k \in 1..Len(e.unit) : Abs(e.unit[k] - 10000) > 20 THEN No("root descriptors do not have unit length")
     ELSE IF e.nw > 0 /\ e.nwrows # Len(e.stored) THEN No("not one row of words per feature")
     ELSE IF \E r \in 1..Len(e.words) : Len(e.words[r]) # e.nw \/ Cardinality(Set(e.words[r])) # e.nw
          THEN No("words of a feature are not distinct or not as many as asked")
     ELSE IF \E r \in 1..Len(e.words) : \E j \in 1..e.nw :
               LET w == e.words[r][j] IN w < 0 \/ w >= Len(e.dist[r]) \/ rank(r, w) > j - 1 + e.slack \/ rankmax(r, w) < j
          THEN No("the words of a feature are not its closest words, nearest first")
     ELSE IF \E r \in 1..Len(e.words) : \E j \in 1..(e.nw - 1) : e.dist[r][e.words[r][j] + 1] > e.dist[r][e.words[r][j + 1] + 1]
          THEN No("the words of a feature are not nearest first")
     ELSE Ok(s)
MapStep(s, e) ==
  IF e.bad >= 0 THEN (IF e.exc = "ValueError bad" \o ToString(e.bad) THEN (IF e.threads = 1 THEN Ok(s) ELSE No("a failing parallel map leaves OpenCV without threads")) ELSE No("an exception is lost in the parallel map"))
  ELSE IF e.exc # "" THEN No("parallel map failed: " \o e.exc)
  ELSE IF Len(e.res) # e.n \/ \E k \in 1..e.n : e.res[k] # 3 * (k - 1) + 1 THEN No("results of the parallel map are not those of the arguments in order")
  ELSE IF Len(e.calls) # e.n THEN No("the parallel map calls the function more or less than once per argument")
  ELSE IF e.threads # 1 THEN No("the parallel map changes the number of OpenCV threads")
  ELSE Ok(s)
MStep(case, s, e) ==
  IF case.kind = "queue" THEN QueueStep(case, s, e)
  ELSE IF case.kind = "map" THEN MapStep(s, e)
  ELSE IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE ImageStep(s, e)
=============================================================================
