------------------------------ MODULE MapGraph ------------------------------
(* The reconstruction graph: cameras, rig cameras, rig instances, shots,     *)
(* panorama shots, landmarks and observations, with every cross reference    *)
(* stored on both sides.  An abstract state is a record                      *)
(*   cams, rcs, insts : sets of ids                                          *)
(*   shots : set of <<kind, id, cam, rigcam, instance>>  (kind "s" or "p")   *)
(*   lms   : set of landmark ids                                             *)
(*   obs   : set of <<kind, shot, landmark, feature, value>>                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

(* ------------------------------ pure part -------------------------------- *)
Empty == [cams |-> {}, rcs |-> {}, insts |-> {}, shots |-> {}, lms |-> {}, obs |-> {}]

Has(g, k, s) == \E x \in g.shots : x[1] = k /\ x[2] = s
ShotRec(g, k, s) == CHOOSE x \in g.shots : x[1] = k /\ x[2] = s
InInst(g, inst) == {x \in g.shots : x[5] = inst}
(* a rig camera takes at most one shot of an instance *)
Slot(g, inst, rc) == \E x \in InInst(g, inst) : x[4] = rc
CanCreateShot(g, k, s, cam, rc, inst) ==
  ~Has(g, k, s) /\ cam \in g.cams /\ rc \in g.rcs /\ inst \in g.insts /\ ~Slot(g, inst, rc)
CreateShotIn(g, k, s, cam, rc, inst) == [g EXCEPT !.shots = @ \cup {<<k, s, cam, rc, inst>>}]
ObsOfShot(g, k, s) == {o \in g.obs : o[1] = k /\ o[2] = s}
ObsOfLm(g, l) == {o \in g.obs : o[3] = l}
RemoveShotFrom(g, k, s) ==
  [g EXCEPT !.shots = {x \in @ : ~(x[1] = k /\ x[2] = s)}, !.obs = @ \ ObsOfShot(g, k, s)]
RemoveLmFrom(g, l) == [g EXCEPT !.lms = @ \ {l}, !.obs = @ \ ObsOfLm(g, l)]
ClearIn(g) == [g EXCEPT !.lms = {}, !.obs = {}]
CleanBelow(g, n) ==
  LET dead == {l \in g.lms : Cardinality(ObsOfLm(g, l)) < n}
  IN [g EXCEPT !.lms = @ \ dead, !.obs = {o \in @ : o[3] \notin dead}]
ObsAt(g, k, s, l) == {o \in g.obs : o[1] = k /\ o[2] = s /\ o[3] = l}
FeatUsed(g, k, s, f) == \E o \in g.obs : o[1] = k /\ o[2] = s /\ o[4] = f
AddObsTo(g, k, s, l, f, v) == [g EXCEPT !.obs = @ \cup {<<k, s, l, f, v>>}]
RemObsFrom(g, k, s, l) == [g EXCEPT !.obs = @ \ ObsAt(g, k, s, l)]
RemInst(g, i) == [g EXCEPT !.insts = @ \ {i}]

(* a deep copy keeps cameras, shots, all rigs and landmarks; panorama        *)
(* observations are never copied and shot observations only on request       *)
CopyOf(g, withObs) ==
  [cams |-> g.cams, rcs |-> g.rcs, insts |-> g.insts,
   shots |-> g.shots, lms |-> g.lms,
   obs |-> IF withObs THEN {o \in g.obs : o[1] = "s"} ELSE {}]

WellFormed(g) ==
  /\ \A x \in g.shots : x[3] \in g.cams /\ x[4] \in g.rcs /\ x[5] \in g.insts
  /\ \A x \in g.shots : \A y \in g.shots : (x[1] = y[1] /\ x[2] = y[2]) => x = y
  /\ \A x \in g.shots : \A y \in g.shots : (x[4] = y[4] /\ x[5] = y[5]) => x = y
  /\ \A o \in g.obs : Has(g, o[1], o[2]) /\ o[3] \in g.lms
  /\ \A o \in g.obs : \A p \in g.obs : (o[1] = p[1] /\ o[2] = p[2] /\ (o[3] = p[3] \/ o[4] = p[4])) => o = p

(* ------------------------------ state machine ---------------------------- *)
(* The implementation keeps, besides the shots, per-shot observations keyed  *)
(* by landmark, per-shot feature -> landmark, per-landmark shots -> feature, *)
(* and per-instance shots; all are modelled separately here.                 *)
CONSTANTS ShotIds, PanoIds, LmIds, Feats, MaxLen
VARIABLES g, shotObs, featLm, lmObs, instShots, hist
vars == <<g, shotObs, featLm, lmObs, instShots, hist>>

Kinds == ({"s"} \X ShotIds) \cup ({"p"} \X PanoIds)
InstOf(k, s) == IF k = "p" THEN "pano_" \o s ELSE "rig"
Rc(s) == "rc_" \o s
Rcs == {Rc(k[2]) : k \in Kinds}
Insts == {InstOf(k[1], k[2]) : k \in Kinds}

Init == /\ g = [Empty EXCEPT !.cams = {"c"}, !.rcs = Rcs, !.insts = Insts]
        /\ shotObs = {} /\ featLm = {} /\ lmObs = {} /\ instShots = {} /\ hist = <<>>

Log(r) == hist' = Append(hist, r)
DropAll(dead) == /\ shotObs' = {o \in shotObs : o \notin dead}
                 /\ featLm' = {e \in featLm : ~\E o \in dead : e = <<o[1], o[2], o[4], o[3]>>}
                 /\ lmObs' = {e \in lmObs : ~\E o \in dead : e = <<o[3], o[1], o[2], o[4]>>}

CreateShot(k, s) ==
  /\ CanCreateShot(g, k, s, "c", Rc(s), InstOf(k, s))
  /\ g' = CreateShotIn(g, k, s, "c", Rc(s), InstOf(k, s))
  /\ instShots' = instShots \cup {<<InstOf(k, s), k, s>>}
  /\ UNCHANGED <<shotObs, featLm, lmObs>>
  /\ Log([op |-> "create_shot", k |-> k, s |-> s, l |-> "", f |-> 0])
RemoveShot(k, s) ==
  /\ Has(g, k, s)
  /\ g' = RemoveShotFrom(g, k, s)
  /\ instShots' = {e \in instShots : ~(e[2] = k /\ e[3] = s)}
  /\ DropAll({o \in shotObs : o[1] = k /\ o[2] = s})
  /\ Log([op |-> "remove_shot", k |-> k, s |-> s, l |-> "", f |-> 0])
CreateLm(l) ==
  /\ l \notin g.lms
  /\ g' = [g EXCEPT !.lms = @ \cup {l}]
  /\ UNCHANGED <<shotObs, featLm, lmObs, instShots>>
  /\ Log([op |-> "create_landmark", k |-> "", s |-> "", l |-> l, f |-> 0])
RemoveLm(l) ==
  /\ l \in g.lms
  /\ g' = RemoveLmFrom(g, l)
  /\ DropAll({o \in shotObs : \E e \in lmObs : e = <<l, o[1], o[2], o[4]>>})
  /\ UNCHANGED instShots
  /\ Log([op |-> "remove_landmark", k |-> "", s |-> "", l |-> l, f |-> 0])
AddObs(k, s, l, f) ==
  /\ Has(g, k, s) /\ l \in g.lms /\ ObsAt(g, k, s, l) = {} /\ ~FeatUsed(g, k, s, f)
  /\ g' = AddObsTo(g, k, s, l, f, f)
  /\ shotObs' = shotObs \cup {<<k, s, l, f, f>>}
  /\ featLm' = featLm \cup {<<k, s, f, l>>}
  /\ lmObs' = lmObs \cup {<<l, k, s, f>>}
  /\ UNCHANGED instShots
  /\ Log([op |-> "add_observation", k |-> k, s |-> s, l |-> l, f |-> f])
RemObs(k, s, l) ==
  /\ k = "s"        (* the API removes single observations of ordinary shots only *)
  /\ ObsAt(g, k, s, l) # {}
  /\ g' = RemObsFrom(g, k, s, l)
  /\ DropAll({o \in shotObs : o[1] = k /\ o[2] = s /\ o[3] = l})
  /\ UNCHANGED instShots
  /\ Log([op |-> "remove_observation", k |-> k, s |-> s, l |-> l, f |-> 0])
Clear ==
  /\ g' = ClearIn(g)
  /\ DropAll(shotObs)
  /\ UNCHANGED instShots
  /\ Log([op |-> "clear", k |-> "", s |-> "", l |-> "", f |-> 0])
Clean(n) ==
  /\ g' = CleanBelow(g, n)
  /\ LET dead == {l \in g.lms : Cardinality({e \in lmObs : e[1] = l}) < n}
     IN DropAll({o \in shotObs : o[3] \in dead})
  /\ UNCHANGED instShots
  /\ Log([op |-> "clean", k |-> "", s |-> "", l |-> "", f |-> n])
Copy(w) ==
  /\ LET h == CopyOf(g, w)
     IN /\ g' = [h EXCEPT !.rcs = Rcs, !.insts = Insts]
        /\ shotObs' = h.obs
        /\ featLm' = {<<o[1], o[2], o[4], o[3]>> : o \in h.obs}
        /\ lmObs' = {<<o[3], o[1], o[2], o[4]>> : o \in h.obs}
        /\ UNCHANGED instShots
  /\ Log([op |-> "become_copy", k |-> "", s |-> "", l |-> "", f |-> IF w THEN 1 ELSE 0])

Next == /\ Len(hist) < MaxLen
        /\ \/ \E x \in Kinds : CreateShot(x[1], x[2]) \/ RemoveShot(x[1], x[2])
           \/ \E l \in LmIds : CreateLm(l) \/ RemoveLm(l)
           \/ \E x \in Kinds, l \in LmIds, f \in Feats : AddObs(x[1], x[2], l, f)
           \/ \E x \in Kinds, l \in LmIds : RemObs(x[1], x[2], l)
           \/ Clear
           \/ \E n \in {1, 2} : Clean(n)
           \/ \E w \in BOOLEAN : Copy(w)
Spec == Init /\ [][Next]_vars

Mirrored == /\ shotObs = g.obs
            /\ featLm = {<<o[1], o[2], o[4], o[3]>> : o \in g.obs}
            /\ lmObs = {<<o[3], o[1], o[2], o[4]>> : o \in g.obs}
            /\ instShots = {<<x[5], x[1], x[2]>> : x \in g.shots}
NoDangling == WellFormed(g)

View == g
Emit == PrintT("@@" \o ToJson([h |-> hist']))
=============================================================================
