------------------------------ MODULE PipeRun ------------------------------
(* The steps of the pipeline over a dataset whose images arrive over time.    *)
(* A step may be interrupted after some of its writes and any step that has   *)
(* what it needs may be run again: metadata and features that exist are kept, *)
(* matches, tracks and reconstructions are made anew from what is stored.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS First, Late, LEN
VARIABLES images, exif, cams, feats, pairs, trk, rec, fresh, log
vars == <<images, exif, cams, feats, pairs, trk, rec, fresh, log>>
Init == images = First /\ exif = {} /\ cams = {} /\ feats = {} /\ pairs = {} /\ trk = {} /\ rec = {} /\ fresh = TRUE /\ log = <<>>
\* histories that begin with a whole first run
Begun == [i \in 1..4 |-> [op |-> <<"extract_metadata", "detect_features", "match_features", "create_tracks">>[i], k |-> 0]]
Init2 == /\ images = First /\ exif = First /\ cams = First /\ feats = First /\ pairs = {p \in SUBSET First : Cardinality(p) = 2}
         /\ trk = First /\ rec = {} /\ fresh = FALSE /\ log = Begun
Do(op, k) == Len(log) < LEN /\ log' = Append(log, [op |-> op, k |-> k])
Pairs(S) == {s \in SUBSET S : Cardinality(s) = 2}
\* an interrupted step k > 0 stopped at its k-th write
Meta == /\ Do("extract_metadata", 0) /\ exif' = images /\ cams' = images
        /\ UNCHANGED <<images, feats, pairs, trk, rec, fresh>>
MetaStop == \E k \in 1..2, S \in SUBSET (images \ exif) :
        /\ Cardinality(S) = k - 1 /\ S # images \ exif
        /\ Do("extract_metadata", k) /\ exif' = exif \cup S /\ UNCHANGED <<images, cams, feats, pairs, trk, rec, fresh>>
Ready == images \subseteq cams
Feat == /\ Ready /\ Do("detect_features", 0) /\ feats' = images
        /\ UNCHANGED <<images, exif, cams, pairs, trk, rec, fresh>>
FeatStop == \E k \in 1..2, S \in SUBSET (images \ feats) :
        /\ Ready /\ Cardinality(S) = k - 1 /\ S # images \ feats
        /\ Do("detect_features", k) /\ feats' = feats \cup S /\ UNCHANGED <<images, exif, cams, pairs, trk, rec, fresh>>
Match == /\ Ready /\ feats = images /\ Do("match_features", 0) /\ pairs' = Pairs(feats)
         /\ UNCHANGED <<images, exif, cams, feats, trk, rec, fresh>>
\* only the files of some images were written
MatchStop == \E new \in {p \in SUBSET Pairs(feats) : p # Pairs(feats)} :
         /\ Ready /\ feats = images /\ Do("match_features", 2) /\ pairs' = pairs \cup new
         /\ UNCHANGED <<images, exif, cams, feats, trk, rec, fresh>>
Tracks == /\ pairs # {} /\ images \subseteq feats /\ Do("create_tracks", 0) /\ trk' = UNION pairs /\ fresh' = FALSE
          /\ UNCHANGED <<images, exif, cams, feats, pairs, rec>>
TracksStop == pairs # {} /\ images \subseteq feats /\ trk # {} /\ Do("create_tracks", 1) /\ UNCHANGED <<images, exif, cams, feats, pairs, trk, rec, fresh>>
Rec == /\ trk # {} /\ images \subseteq exif /\ Do("reconstruct", 0) /\ rec' = trk /\ fresh' = TRUE
       /\ UNCHANGED <<images, exif, cams, feats, pairs, trk>>
RecStop == trk # {} /\ rec # {} /\ images \subseteq exif /\ Do("reconstruct", 1) /\ UNCHANGED <<images, exif, cams, feats, pairs, trk, rec, fresh>>
\* an image is taken out of the reconstruction and found again
Extend == fresh /\ images \subseteq exif /\ Cardinality(rec) > 2 /\ Do("extend_reconstruction", 0) /\ UNCHANGED <<images, exif, cams, feats, pairs, trk, rec, fresh>>
Arrive == images = First /\ Do("arrive", 0) /\ images' = images \cup Late /\ UNCHANGED <<exif, cams, feats, pairs, trk, rec, fresh>>
Next == Meta \/ MetaStop \/ Feat \/ FeatStop \/ Match \/ MatchStop \/ Tracks \/ TracksStop \/ Rec \/ RecStop \/ Extend \/ Arrive
Spec == Init /\ [][Next]_vars
Types == exif \subseteq images /\ cams \subseteq exif /\ feats \subseteq cams /\ UNION pairs \subseteq feats /\ trk \subseteq feats /\ rec \subseteq feats
Grows == [][exif \subseteq exif' /\ feats \subseteq feats' /\ cams \subseteq cams']_vars
\* whatever was interrupted before, the steps once more in order give the whole dataset
N == Len(log)
Full == N >= 5 /\ [i \in 1..5 |-> log[N - 5 + i]] = <<[op |-> "extract_metadata", k |-> 0], [op |-> "detect_features", k |-> 0], [op |-> "match_features", k |-> 0], [op |-> "create_tracks", k |-> 0], [op |-> "reconstruct", k |-> 0]>>
Resumes == Full => rec = images /\ pairs = Pairs(images)
Emit == N = LEN /\ log[N].op \in {"create_tracks", "reconstruct", "extend_reconstruction"} => PrintT("@@" \o ToJson(log))
=============================================================================
