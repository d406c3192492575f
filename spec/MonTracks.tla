----------------------------- MODULE MonTracks ------------------------------
(* Judges one run of track creation: the case carries the features and the   *)
(* match lists, the event carries the content of the resulting tracks.       *)
EXTENDS TraceBase

TB == INSTANCE TrackBuild WITH Images <- {}, Feats <- {}, MinLen <- 2, MaxLinks <- 0,
                               edges <- {}, part <- {}

(* case.matches: seq of <<im1, im2, seq of <<f1, f2>> >> *)
RECURSIVE LinkAll(_, _, _)
LinkAll(part, ms, k) ==
  IF k > Len(ms) THEN part
  ELSE LET m == ms[k]
       IN LinkAll(TB!Components(part, [q \in 1..Len(m[3]) |-> << <<m[1], m[3][q][1]>>, <<m[2], m[3][q][2]>> >>], 1),
                  ms, k + 1)

MStart(case) == 0

(* attr tables: case.feat is a seq of <<image, featureid, attribute string>> *)
MStep(case, s, e) ==
  LET usable == SelectSeq(case.matches, LAMBDA m : m[1] \in Set(case.images) /\ m[2] \in Set(case.images))
      expected == TB!TracksOf(LinkAll({}, usable, 1), case.minlen)
      got == [k \in 1..Len(e.tracks) |-> {<<o[1], o[2]>> : o \in Set(e.tracks[k])}]
      table == Set(case.feat)
  IN IF e.exc # "" THEN No("track creation raised " \o e.exc)
     ELSE IF \E k \in 1..Len(e.tracks) : Cardinality(got[k]) # Len(e.tracks[k])
       THEN No("a feature appears twice in a track")
     ELSE IF ~Distinct(got) THEN No("the same track appears twice")
     ELSE IF \E k \in 1..Len(got) : ~TB!OneFeaturePerImage(got[k])
       THEN No("a track contains two features of one image")
     ELSE IF \E k \in 1..Len(got) : Cardinality(got[k]) < case.minlen
       THEN No("a track is shorter than the minimum length")
     ELSE IF Set(got) # expected
       THEN No("tracks are not the valid connected components of the matches")
     ELSE IF \E k \in 1..Len(e.tracks) : \E o \in Set(e.tracks[k]) : <<o[1], o[2], o[3]>> \notin table
       THEN No("an observation does not carry its own feature's attributes")
     ELSE IF ~e.consistent THEN No("per-image and per-track views of the tracks disagree")
     ELSE Ok(s)
=============================================================================
