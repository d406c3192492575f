------------------------------ MODULE MonPipe ------------------------------
(* Decides recorded histories of the steps of the pipeline (see PipeRun).     *)
EXTENDS TraceBase
MStart(c) == [images |-> Set(c.first), exif |-> {}, cams |-> {}, feats |-> {}, pairs |-> {}, trk |-> {}, whole |-> FALSE, rec |-> <<>>]
Pairs(S) == {s \in SUBSET S : Cardinality(s) = 2}
\* the first k images in the order of the dataset that have none yet
Head_(order, have, k) == Set(SubSeq(SelectSeq(order, LAMBDA i : i \notin have), 1, k))
stored(e) == {{e.pairs[i][1], e.pairs[i][2]} : i \in 1..Len(e.pairs)}
camOf(e, i) == (CHOOSE p \in Set(e.camof) : p[1] = i)[2]
Good(m) == m.pos <= 80 /\ m.ang <= 80 /\ m.near >= 600 /\ m.points >= 30
Shots(r) == UNION {Set(r[i]) : i \in 1..Len(r)}
\* matching and the estimation of motions are randomized: a poor result is
\* tried again from matching on, and only always poor results are rejected
Ever(e, P(_, _)) == P(e.rec, e.meas) \/ \E i \in 1..Len(e.again) : P(e.again[i].rec, e.again[i].meas)
After(c, s, e) ==
  LET done == e.k = 0
      images == IF e.op = "arrive" THEN s.images \cup Set(c.late) ELSE s.images
      exif == IF e.op # "extract_metadata" THEN s.exif ELSE IF done THEN s.images ELSE s.exif \cup Head_(e.order, s.exif, e.k - 1)
      feats == IF e.op # "detect_features" THEN s.feats ELSE IF done THEN s.images ELSE s.feats \cup Head_(e.order, s.feats, e.k - 1)
  IN [images |-> images, exif |-> exif, cams |-> IF e.op = "extract_metadata" /\ done THEN Set(e.cams) ELSE s.cams, feats |-> feats,
      pairs |-> stored(e), trk |-> Set(e.tracks), whole |-> IF e.op = "create_tracks" /\ done THEN s.pairs = Pairs(s.feats) ELSE s.whole, rec |-> e.rec]
Judge(c, s, e, t) ==
  LET done == e.k = 0
      meta == e.op = "extract_metadata" /\ done
      recons == e.op \in {"reconstruct", "extend_reconstruction"} /\ done
      all == s.whole /\ Cardinality(s.trk) > 2
  IN IF e.exc # "" THEN "the step " \o e.op \o " failed: " \o e.exc
     ELSE IF Set(e.images) # t.images \/ ~Distinct(e.order) THEN "the images of the dataset"
     ELSE IF Set(e.exif) # t.exif THEN "the images with metadata after " \o e.op
     ELSE IF Set(e.feats) # t.feats THEN "the images with features after " \o e.op
     ELSE IF e.kept # 1 THEN "metadata or features that existed were changed by " \o e.op
     ELSE IF meta /\ Set(e.cams) # {camOf(e, i) : i \in t.images} THEN "the camera models are not those of the images"
     ELSE IF ~meta /\ Set(e.cams) # s.cams THEN "the camera models changed by " \o e.op
     ELSE IF ~(t.pairs \subseteq Pairs(t.feats)) \/ e.index # 1 THEN "matches of features that do not exist"
     ELSE IF e.op # "match_features" /\ t.pairs # s.pairs THEN "the matches changed by " \o e.op
     ELSE IF e.op = "match_features" /\ done /\ t.pairs # Pairs(t.feats) THEN "a pair of images that overlap was not matched"
     ELSE IF e.op = "match_features" /\ done /\ Len(e.pairs) # Cardinality(t.pairs) THEN "a pair of images has its matches twice"
     ELSE IF e.op = "create_tracks" /\ done /\ (t.trk # UNION s.pairs \/ (s.pairs # {} /\ e.ntracks = 0)) THEN "the images of the tracks are not those with matches"
     ELSE IF ~(e.op = "create_tracks" /\ done) /\ t.trk # s.trk THEN "the tracks changed by " \o e.op
     ELSE IF ~recons THEN (IF e.rec # s.rec THEN "the reconstruction changed by " \o e.op ELSE "")
     ELSE IF ~(Shots(e.rec) \subseteq s.trk) THEN "an image without tracks was reconstructed"
     ELSE IF Total([i \in 1..Len(e.rec) |-> Len(e.rec[i])]) # Cardinality(Shots(e.rec)) THEN "an image is in two reconstructions"
     ELSE IF e.op = "extend_reconstruction" /\ ~Ever(e, LAMBDA r, m : Len(r) = 1 /\ Set(r[1]) = Set(s.rec[1])) THEN "the extended reconstruction lacks an image"
     ELSE IF all /\ ~Ever(e, LAMBDA r, m : Len(r) = 1 /\ Set(r[1]) = s.trk) THEN "images that see the same scene were not reconstructed together"
     ELSE IF all /\ ~Ever(e, LAMBDA r, m : Len(r) = 1 /\ Set(r[1]) = s.trk /\ Good(m[1])) THEN "the reconstruction is not the scene"
     ELSE ""
MStep(c, s, e) == LET t == After(c, s, e)  w == Judge(c, s, e, t) IN IF w = "" THEN Ok(t) ELSE No(w)
=============================================================================
