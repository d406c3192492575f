------------------------------- MODULE MonMap -------------------------------
(* Judges recorded histories of a real reconstruction graph.                 *)
EXTENDS TraceBase
MG == INSTANCE MapGraph WITH ShotIds <- {}, PanoIds <- {}, LmIds <- {}, Feats <- {}, MaxLen <- 0,
        g <- 0, shotObs <- {}, featLm <- {}, lmObs <- {}, instShots <- {}, hist <- <<>>

MStart(case) == MG!Empty

(* ---- dump of the real map ----
   d.cams, d.rcs, d.insts, d.lms: seqs of ids
   d.shots: seq of <<kind, id, cam, rigcam, instance>>
   d.obsS: seq of <<kind, shot, landmark, feature, value>>  from the shots
   d.obsF: seq of <<kind, shot, feature, landmark, value>>  by feature id
   d.obsL: seq of <<landmark, kind, shot, feature>>         from the landmarks
   d.instS: seq of <<instance, kind, shot, rigcam, cam>>    from the instances
   d.nobs: seq of <<landmark, count>>
   d.tm, d.valid: seq of <<shot, landmark, value>>  to_tracks_manager / get_valid_observations *)
DumpWhy(d, g) ==
  IF d.exc # "" THEN "reading the graph failed: " \o d.exc
  ELSE IF Set(d.cams) # g.cams \/ ~Distinct(d.cams) THEN "wrong set of cameras"
  ELSE IF Set(d.rcs) # g.rcs \/ ~Distinct(d.rcs) THEN "wrong set of rig cameras"
  ELSE IF Set(d.insts) # g.insts \/ ~Distinct(d.insts) THEN "wrong set of rig instances"
  ELSE IF Set(d.lms) # g.lms \/ ~Distinct(d.lms) THEN "wrong set of landmarks"
  ELSE IF Set(d.shots) # g.shots \/ ~Distinct(d.shots) THEN "wrong shots, or a shot with the wrong camera or rig"
  ELSE IF Set(d.instS) # {<<x[5], x[1], x[2], x[4], x[3]>> : x \in g.shots} \/ ~Distinct(d.instS)
    THEN "rig instances do not list exactly their shots"
  ELSE IF Set(d.obsS) # g.obs \/ ~Distinct(d.obsS) THEN "observations of shots differ from the edit history"
  ELSE IF Set(d.obsF) # {<<o[1], o[2], o[4], o[3], o[5]>> : o \in g.obs}
    THEN "lookup of observations by feature id disagrees"
  ELSE IF Set(d.obsL) # {<<o[3], o[1], o[2], o[4]>> : o \in g.obs} \/ ~Distinct(d.obsL)
    THEN "observations of landmarks differ from those of shots"
  ELSE IF Set(d.nobs) # {<<l, Cardinality(MG!ObsOfLm(g, l))>> : l \in g.lms} THEN "wrong number of observations of a landmark"
  ELSE IF d.full /\ Set(d.valid) # {<<o[2], o[3], o[5]>> : o \in {x \in g.obs : x[1] = "s"}}
    THEN "observations matched against tracks differ"
  ELSE IF d.full /\ Set(d.tm) # {<<o[2], o[3], o[5]>> : o \in g.obs} THEN "the exported tracks differ from the observations"
  ELSE ""

(* an operation that must succeed / must fail *)
Must(ok, e, what, next) ==
  IF ok /\ e.exc # "" THEN No(what \o " failed: " \o e.exc)
  ELSE IF ~ok /\ e.exc = "" THEN No(what \o " should have been refused")
  ELSE Ok(next)

MStep(case, g, e) ==
  CASE e.op = "create_camera" ->   (* creating an existing camera keeps it *)
         Must(TRUE, e, "creating a camera", [g EXCEPT !.cams = @ \cup {e.id}])
    [] e.op = "create_rig_camera" ->
         LET ok == e.id \notin g.rcs
         IN Must(ok, e, "creating a rig camera", IF ok THEN [g EXCEPT !.rcs = @ \cup {e.id}] ELSE g)
    [] e.op = "create_rig_instance" ->
         LET ok == e.id \notin g.insts
         IN Must(ok, e, "creating a rig instance", IF ok THEN [g EXCEPT !.insts = @ \cup {e.id}] ELSE g)
    [] e.op = "remove_rig_instance" ->
         LET ok == e.id \in g.insts /\ MG!InInst(g, e.id) = {}
         IN Must(ok, e, "removing a rig instance", IF ok THEN MG!RemInst(g, e.id) ELSE g)
    [] e.op = "create_shot" ->
         LET ok == MG!CanCreateShot(g, e.k, e.s, e.cam, e.rc, e.inst)
         IN Must(ok, e, "creating a shot", IF ok THEN MG!CreateShotIn(g, e.k, e.s, e.cam, e.rc, e.inst) ELSE g)
    [] e.op = "simple_shot" ->  (* Reconstruction.create_shot: rig camera and instance made on demand *)
         LET g1 == [g EXCEPT !.rcs = @ \cup {e.rc}, !.insts = @ \cup {e.inst}]
             ok == MG!CanCreateShot(g1, e.k, e.s, e.cam, e.rc, e.inst)
         IN Must(ok, e, "creating a shot", IF ok THEN MG!CreateShotIn(g1, e.k, e.s, e.cam, e.rc, e.inst)
                                          ELSE [g EXCEPT !.rcs = @ \cup Set(e.newrcs), !.insts = @ \cup Set(e.newinsts)])
    [] e.op = "remove_shot" ->
         LET ok == MG!Has(g, e.k, e.s)
         IN Must(ok, e, "removing a shot", IF ok THEN MG!RemoveShotFrom(g, e.k, e.s) ELSE g)
    [] e.op = "create_landmark" ->
         LET ok == e.l \notin g.lms
         IN Must(ok, e, "creating a landmark", IF ok THEN [g EXCEPT !.lms = @ \cup {e.l}] ELSE g)
    [] e.op = "remove_landmark" ->
         LET ok == e.l \in g.lms
         IN Must(ok, e, "removing a landmark", IF ok THEN MG!RemoveLmFrom(g, e.l) ELSE g)
    [] e.op = "add_observation" ->
         LET there == MG!ObsAt(g, e.k, e.s, e.l)
             ok == MG!Has(g, e.k, e.s) /\ e.l \in g.lms
         IN IF ok /\ there # {} /\ there # {<<e.k, e.s, e.l, e.f, e.v>>} THEN No("driver precondition")
            ELSE Must(ok, e, "adding an observation", IF ok THEN MG!AddObsTo(g, e.k, e.s, e.l, e.f, e.v) ELSE g)
    [] e.op = "remove_observation" ->
         LET ok == MG!ObsAt(g, e.k, e.s, e.l) # {}
         IN Must(ok, e, "removing an observation", IF ok THEN MG!RemObsFrom(g, e.k, e.s, e.l) ELSE g)
    [] e.op = "clear" -> Must(TRUE, e, "clearing observations and landmarks", MG!ClearIn(g))
    [] e.op = "clean" -> Must(TRUE, e, "removing poorly observed landmarks", MG!CleanBelow(g, e.n))
    [] e.op = "become_copy" -> Must(TRUE, e, "deep copying", MG!CopyOf(g, e.obs))
    [] e.op = "add_tracks" ->  (* add_correspondences_from_tracks_manager *)
         LET new == {<<"s", o[1], o[2], o[3], o[4]>> : o \in {x \in Set(e.rows) : MG!Has(g, "s", x[1]) /\ x[2] \in g.lms}}
         IN Must(TRUE, e, "adding correspondences", [g EXCEPT !.obs = @ \cup new])
    [] e.op = "dump" -> LET why == DumpWhy(e.dump, g) IN IF why # "" THEN No(why) ELSE Ok(g)
=============================================================================
