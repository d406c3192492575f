------------------------------- MODULE MonTM -------------------------------
(* Judges recorded histories of a real TracksManager.                        *)
(* state: [rel: set of <<image, track, value>>, sh/tr: ids ever added]       *)
EXTENDS TraceBase
TS == INSTANCE TracksStore WITH Shots <- {}, Tracks <- {}, Vals <- {}, MaxLen <- 0,
        byShot <- {}, byTrack <- {}, rel <- {}, hist <- <<>>

MStart(case) == [rel |-> {}, sh |-> {}, tr |-> {}]

RelOf(seq) == {<<o[1], o[2], o[3]>> : o \in Set(seq)}
(* a full dump of a manager: shots, tracks, byShot and byTrack as triples *)
DumpOK(d, rel, sh, tr) ==
  IF d.exc # "" THEN "a listed id could not be read back: " \o d.exc
  ELSE IF ~Distinct(d.shots) \/ ~Distinct(d.tracks) THEN "ids are listed twice"
  ELSE IF ~(TS!ShotsOf(rel) \subseteq Set(d.shots) /\ Set(d.shots) \subseteq sh) THEN "wrong set of images"
  ELSE IF ~(TS!TracksIn(rel) \subseteq Set(d.tracks) /\ Set(d.tracks) \subseteq tr) THEN "wrong set of tracks"
  ELSE IF d.ns # Len(d.shots) \/ d.nt # Len(d.tracks) THEN "counts disagree with the listed ids"
  ELSE IF RelOf(d.byShot) # rel \/ Len(d.byShot) # Cardinality(rel)
    THEN "per-image observations differ from the edit history"
  ELSE IF RelOf(d.byTrack) # rel \/ Len(d.byTrack) # Cardinality(rel)
    THEN "per-track observations differ from the edit history"
  ELSE ""

SubJudge(s, e) ==
  LET r == TS!Sub(s.rel, Set(e.t), Set(e.s))
      why == DumpOK(e.dump, r, TS!ShotsOf(r), TS!TracksIn(r))
  IN IF why # "" THEN "sub-manager: " \o why ELSE ""

MergeJudge(e) ==
  LET rels == [k \in 1..Len(e.managers) |-> {<<o[1], o[2], <<o[4], o[3]>> >> : o \in Set(e.managers[k])}]
      d == e.dump
      cl == TS!Clusters(rels)
      got == {<<o[1], o[2], <<o[4], o[3]>> >> : o \in Set(d.byTrack)}
      gotS == {<<o[1], o[2], <<o[4], o[3]>> >> : o \in Set(d.byShot)}
      trackOK(t, g) == LET obs == TS!OfTrack(got, t)
                           all == TS!ClusterObs(rels, g)
                       IN /\ obs \subseteq all
                          /\ {x[1] : x \in obs} = {x[1] : x \in all}
                          /\ Cardinality(obs) = Cardinality({x[1] : x \in all})
  IN IF d.exc # "" THEN "merge: " \o d.exc
     ELSE IF got # gotS THEN "merge: per-image and per-track views disagree"
     ELSE IF Cardinality(Set(d.tracks)) # Cardinality(cl) THEN "merge: wrong number of merged tracks"
     ELSE IF \E g \in cl : Cardinality({t \in Set(d.tracks) : trackOK(t, g)}) = 0
       THEN "merge: tracks sharing a feature are not exactly unified"
     ELSE ""

MStep(case, s, e) ==
  CASE e.op = "add" ->
         IF e.exc # "" THEN No("adding an observation failed: " \o e.exc)
         ELSE Ok([rel |-> TS!Put(s.rel, e.s, e.t, e.v), sh |-> s.sh \cup {e.s}, tr |-> s.tr \cup {e.t}])
    [] e.op = "remove" ->
         LET present == TS!At(s.rel, e.s, e.t) # {}
             known == e.s \in TS!ShotsOf(s.rel) /\ e.t \in TS!TracksIn(s.rel)
             unknown == e.s \notin s.sh \/ e.t \notin s.tr
         IN IF present /\ e.exc # "" THEN No("removing an existing observation failed: " \o e.exc)
            ELSE IF unknown /\ e.exc = "" THEN No("removing from an unknown image or track did not fail")
            ELSE Ok([s EXCEPT !.rel = TS!Del(s.rel, e.s, e.t)])
    [] e.op = "dump" ->
         LET why == DumpOK(e.dump, s.rel, s.sh, s.tr) IN IF why # "" THEN No(why) ELSE Ok(s)
    [] e.op = "get" ->
         LET o == TS!At(s.rel, e.s, e.t)
         IN IF o = {} /\ e.exc = "" THEN No("reading an absent observation did not fail")
            ELSE IF o # {} /\ e.exc # "" THEN No("reading an existing observation failed")
            ELSE IF o # {} /\ o # {<<e.s, e.t, e.v>>} THEN No("an observation does not hold what was last written")
            ELSE Ok(s)
    [] e.op = "getlist" ->
         (* whole-row reads of one image or one track *)
         LET exp == IF e.kind = "shot" THEN TS!OfShot(s.rel, e.id) ELSE TS!OfTrack(s.rel, e.id)
             ever == IF e.kind = "shot" THEN e.id \in s.sh ELSE e.id \in s.tr
         IN IF ~ever /\ e.exc = "" THEN No("listing an unknown id did not fail")
            ELSE IF exp # {} /\ e.exc # "" THEN No("listing a known id failed")
            ELSE IF e.exc = "" /\ {<<o[1], o[2]>> : o \in Set(e.res)} # exp THEN No("a listing differs from the edit history")
            ELSE Ok(s)
    [] e.op = "become_sub" ->
         LET why == SubJudge(s, e)
             r == TS!Sub(s.rel, Set(e.t), Set(e.s))
         IN IF why # "" THEN No(why) ELSE Ok([rel |-> r, sh |-> TS!ShotsOf(r), tr |-> TS!TracksIn(r)])
    [] e.op = "sub" ->
         LET why == SubJudge(s, e) IN IF why # "" THEN No(why) ELSE Ok(s)
    [] e.op = "common" ->
         LET exp == TS!Common(s.rel, e.a, e.b)
             ok == e.a \in TS!ShotsOf(s.rel) /\ e.b \in TS!ShotsOf(s.rel)
             unk == e.a \notin s.sh \/ e.b \notin s.sh
         IN IF unk /\ e.exc = "" THEN No("common observations of an unknown image did not fail")
            ELSE IF ok /\ e.exc # "" THEN No("common observations failed: " \o e.exc)
            ELSE IF e.exc = "" /\ (Set(e.res) # exp \/ Len(e.res) # Cardinality(exp))
              THEN No("common observations of two images are not the shared tracks")
            ELSE Ok(s)
    [] e.op = "pairs" ->
         LET S == IF Len(e.s) = 0 THEN TS!ShotsOf(s.rel) ELSE Set(e.s)
             T == IF Len(e.t) = 0 THEN TS!TracksIn(s.rel) ELSE Set(e.t)
             exp == TS!Pairs(s.rel, S, T)
         IN IF e.exc # "" THEN No("pair connectivity failed: " \o e.exc)
            ELSE IF Len(e.res) # Cardinality(exp) \/ {<<{p[1], p[2]}, p[3]>> : p \in Set(e.res)} # exp
              THEN No("pair connectivity is not the number of shared tracks")
            ELSE Ok(s)
    [] e.op = "allcommon" ->
         (* tracking.all_common_tracks: pairs with at least min shared tracks *)
         LET sh == TS!ShotsOf(s.rel)
             exp == {{p[1], p[2]} : p \in {q \in sh \X sh : q[1] # q[2]
                        /\ Cardinality(TS!Common(s.rel, q[1], q[2])) >= Max2(e.min, 1)}}
         IN IF e.exc # "" THEN No("all_common_tracks failed: " \o e.exc)
            ELSE IF Len(e.res) # Cardinality(exp) \/ {{p[1], p[2]} : p \in Set(e.res)} # exp
              THEN No("all_common_tracks lists the wrong pairs")
            ELSE IF \E p \in Set(e.res) :
                 LET want == IF e.feat THEN TS!Common(s.rel, p[1], p[2])
                             ELSE {<<x[1]>> : x \in TS!Common(s.rel, p[1], p[2])}
                 IN Set(p[3]) # want \/ Len(p[3]) # Cardinality(want)
              THEN No("all_common_tracks lists the wrong tracks or features for a pair")
            ELSE Ok(s)
    [] e.op = "graph" ->
         IF e.exc # "" THEN No("as_graph failed: " \o e.exc)
         ELSE IF {<<x[1], x[2], x[3]>> : x \in Set(e.edges)} # s.rel \/ Len(e.edges) # Cardinality(s.rel)
           THEN No("the bipartite graph differs from the observations")
         ELSE IF ~(TS!ShotsOf(s.rel) \subseteq Set(e.shots) /\ Set(e.shots) \subseteq s.sh
                   /\ TS!TracksIn(s.rel) \subseteq Set(e.tracks) /\ Set(e.tracks) \subseteq s.tr)
           THEN No("the bipartite graph has wrong nodes")
         ELSE Ok(s)
    [] e.op = "wgraph" ->
         LET exp == TS!Pairs(s.rel, TS!ShotsOf(s.rel), TS!TracksIn(s.rel))
         IN IF e.exc # "" THEN No("as_weighted_graph failed: " \o e.exc)
            ELSE IF {<<{p[1], p[2]}, p[3]>> : p \in Set(e.edges)} # exp THEN No("the weighted image graph is wrong")
            ELSE IF ~(TS!ShotsOf(s.rel) \subseteq Set(e.shots) /\ Set(e.shots) \subseteq s.sh)
              THEN No("the weighted image graph has wrong nodes")
            ELSE Ok(s)
    [] e.op = "merge" ->
         LET why == MergeJudge(e) IN IF why # "" THEN No(why) ELSE Ok(s)
    (* ---- persistence ---- *)
    [] e.op = "roundtrip" ->
         IF e.exc # "" THEN No("saving or loading tracks failed: " \o e.exc)
         ELSE LET why == DumpOK(e.dump, s.rel, TS!ShotsOf(s.rel), TS!TracksIn(s.rel))
              IN IF why # "" THEN No("saved tracks differ from the loaded ones: " \o why) ELSE Ok(s)
    [] e.op = "load" ->
         (* e.rows: seq of <<image, track, value expected for this format>> *)
         IF e.bad /\ e.exc = "" THEN No("a malformed or unreadable tracks file was accepted")
         ELSE IF ~e.bad /\ e.exc # "" THEN No("a valid tracks file was rejected: " \o e.exc)
         ELSE IF e.bad THEN Ok(s)
         ELSE LET r == RelOf(e.rows)
                  why == DumpOK(e.dump, r, TS!ShotsOf(r), TS!TracksIn(r))
              IN IF why # "" THEN No("a tracks file is loaded wrongly: " \o why) ELSE Ok(s)
    [] e.op = "precise" ->
         (* full-precision coordinates survive to within 1e-5 relative *)
         IF e.exc # "" THEN No("saving or loading tracks failed: " \o e.exc)
         ELSE IF Len(e.want) # Len(e.got) THEN No("saving tracks lost observations")
         ELSE IF \E k \in 1..Len(e.want) : \E j \in 1..3 :
              Abs(e.want[k][j] - e.got[k][j]) > Abs(e.want[k][j]) \div 100000 + 1
           THEN No("saved coordinates lost more than 1e-5 of relative precision")
         ELSE Ok(s)
=============================================================================
