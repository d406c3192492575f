------------------------------- MODULE RigPose ------------------------------
(* Rigs: instances and rig cameras have poses, shots only derive theirs.     *)
EXTENDS PoseAlg, Json
CONSTANTS MaxLen
VARIABLES cam, inst, hist
vars == <<cam, inst, hist>>
Cams == {"c0", "c1", "c2"}
Insts == {"i1", "i2", "i3"}
Shots == {"a", "b", "c", "d"}
InstOf == [a |-> "i1", b |-> "i1", c |-> "i2", d |-> "i3"]
CamOf == [a |-> "c1", b |-> "c2", c |-> "c1", d |-> "c0"]
Poses == {Id, [n |-> 1, M |-> <<0, -1, 0, 1, 0, 0, 0, 0, 1>>, t |-> <<1, 2, 0>>, d |-> 1],
          [n |-> 1, M |-> <<0, 0, 1, 0, -1, 0, 1, 0, 0>>, t |-> <<0, -1, 3>>, d |-> 1]}
ShotPose(ca, in, s) == Comp(ca[CamOf[s]], in[InstOf[s]])
Alone(s) == \A x \in Shots \ {s} : InstOf[x] # InstOf[s]
Movable(ca, s) == Alone(s) /\ SamePose(ca[CamOf[s]], Id)
Log(o, k, p) == hist' = Append(hist, [op |-> o, k |-> k, p |-> p])
Init == cam = [c \in Cams |-> Id] /\ inst = [i \in Insts |-> Id] /\ hist = <<>>
SetInst(i, p) == inst' = [inst EXCEPT ![i] = p] /\ UNCHANGED cam /\ Log("inst", i, p)
SetCam(c, p) == cam' = [cam EXCEPT ![c] = p] /\ UNCHANGED inst /\ Log("cam", c, p)
(* place the instance so that its shot s has pose p *)
Place(s, p) == inst' = [inst EXCEPT ![InstOf[s]] = Comp(Inv(cam[CamOf[s]]), p)] /\ UNCHANGED cam /\ Log("place", s, p)
(* moving a shot itself: refused unless it is its own rig *)
Move(s, p) == /\ inst' = IF Movable(cam, s) THEN [inst EXCEPT ![InstOf[s]] = p] ELSE inst
              /\ UNCHANGED cam /\ Log("move", s, p)
Next == /\ Len(hist) < MaxLen
        /\ \E p \in Poses : \/ \E i \in Insts : SetInst(i, p)
                            \/ \E c \in Cams \ {"c0"} : SetCam(c, p)
                            \/ \E s \in Shots : Place(s, p) \/ Move(s, p)
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
Placed == (hist # <<>> /\ Last.op = "place") => SamePose(ShotPose(cam, inst, Last.k), Last.p)
Moved == (hist # <<>> /\ Last.op = "move" /\ Movable(cam, Last.k)) => SamePose(ShotPose(cam, inst, Last.k), Last.p)
(* shots of one instance keep the relative pose given by the rig cameras *)
RigidInstances == \A x, y \in Shots : InstOf[x] = InstOf[y] =>
   SamePose(Rel(ShotPose(cam, inst, x), ShotPose(cam, inst, y)), Rel(cam[CamOf[x]], cam[CamOf[y]]))
Laws == \A p, q, r \in Poses :
  /\ SamePose(Comp(p, Comp(q, r)), Comp(Comp(p, q), r)) /\ SamePose(Comp(p, Inv(p)), Id) /\ SamePose(Comp(Inv(p), p), Id)
  /\ SamePose(Comp(Rel(p, q), q), p) /\ SameQ(Image(p, Origin(p).v), [v |-> <<0, 0, 0>>, d |-> 1])
  /\ SameQ(Image(Comp(p, q), <<1, 2, 3>>), Image(p, Image(q, <<1, 2, 3>>).v))
Emit == Len(hist') = MaxLen => PrintT("@@" \o ToJson(hist'))
=============================================================================
