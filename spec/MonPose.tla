------------------------------- MODULE MonPose ------------------------------
(* Judges poses of the real code against exact rational rigid motions.       *)
(* A measured pose is 12 numbers scaled by S: rotation row major, then t.    *)
EXTENDS TraceBase
P == INSTANCE PoseAlg
S == 10000
PoseOf(x) == [n |-> x.n, M |-> x.M, t |-> x.t, d |-> x.d]
(* rig state: cams and insts: functions id -> pose; shots: function id -> [inst, cam] *)
Fn(seq) == [k \in {x[1] : x \in Set(seq)} |-> (CHOOSE x \in Set(seq) : x[1] = k)[2]]
MStart(case) == IF case.kind = "rig" THEN [cams |-> <<>>, insts |-> <<>>, shots |-> <<>>] ELSE P!Id
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
V(s, why) == IF why = "" THEN Ok(s) ELSE No(why)

(* every accessor of one pose object *)
Views(p, e) ==
  IF \E k \in 1..Len(e.w2c) : ~P!NearPose(p, e.w2c[k], S, 2) THEN "a pose does not hold the motion it was set to"
  ELSE IF \E k \in 1..Len(e.c2w) : ~P!NearPose(P!Inv(p), e.c2w[k], S, 2) THEN "the inverse of a pose is not the inverse of its motion"
  ELSE ""
Alg(e) ==
  LET a == PoseOf(e.a)
      b == PoseOf(e.b)
      r == CASE e.f = "compose" -> P!Comp(a, b) [] e.f = "relative" -> P!Rel(a, b) [] e.f = "inverse" -> P!Inv(a)
  IN IF ~P!NearPose(r, e.got, S, 2) THEN e.f \o " of poses is wrong" ELSE IF ~P!NearPose(P!Inv(r), e.gotinv, S, 2) THEN e.f \o " of poses has a wrong inverse" ELSE ""
Pts(e) ==
  LET a == PoseOf(e.a)
      w(x) == IF e.f = "to" THEN P!Image(a, x) ELSE P!Image(P!Inv(a), x)
      ok(k, g) == P!NearV(w(e.xs[k]).v, w(e.xs[k]).d, g, S, 3)
  IN IF \A k \in 1..Len(e.xs) : ok(k, e.one[k]) /\ ok(k, e.many[k]) THEN "" ELSE "a transformed point is wrong"
Similar(e) ==   (* y = s R x + t,  s = p/q *)
  LET a == PoseOf(e.a)
      y(x) == [v |-> P!VAdd(P!VScale(e.p * a.d, P!App(a.M, x)), P!VScale(e.q * a.n, a.t)), d |-> e.q * a.n * a.d]
  IN IF \A k \in 1..Len(e.xs) : P!NearV(y(e.xs[k]).v, y(e.xs[k]).d, e.got[k], S, 4) /\ P!NearV(e.xs[k], 1, e.back[k], S, 8)
     THEN "" ELSE "a similarity and its inverse disagree with their parameters"

ShotPose(s, k) == P!Comp(s.cams[s.shots[k].cam], s.insts[s.shots[k].inst])
Alone(s, k) == \A x \in DOMAIN s.shots \ {k} : s.shots[x].inst # s.shots[k].inst
Movable(s, k) == Alone(s, k) /\ P!SamePose(s.cams[s.shots[k].cam], P!Id)
Near1(x) == [x EXCEPT !.n = 1]
DumpWhy(s, e) ==
  IF {x[1] : x \in Set(e.shots)} # DOMAIN s.shots THEN "wrong shots"
  ELSE IF \E x \in Set(e.shots) : ~P!NearPose(ShotPose(s, x[1]), x[2], S, 2) THEN "a shot's pose is not its rig camera's pose composed with its instance's pose"
  ELSE IF \E x \in Set(e.shots) : ~P!NearPose(P!Inv(ShotPose(s, x[1])), x[3], S, 2) THEN "a shot's camera-to-world motion is wrong"
  ELSE IF \E x \in Set(e.insts) : ~P!NearPose(s.insts[x[1]], x[2], S, 2) THEN "a rig instance's pose is wrong"
  ELSE IF \E x \in Set(e.cams) : ~P!NearPose(s.cams[x[1]], x[2], S, 2) THEN "a rig camera's pose is wrong"
  ELSE ""
Rig(s, e) ==
  LET p == PoseOf(e.p)
      s2 == CASE e.op = "addcam" -> [s EXCEPT !.cams = Put(@, e.k, p)]
              [] e.op = "addinst" -> [s EXCEPT !.insts = Put(@, e.k, P!Id)]
              [] e.op = "addshot" -> [s EXCEPT !.shots = Put(@, e.k, [inst |-> e.i, cam |-> e.c])]
              [] e.op = "addshotp" -> [s EXCEPT !.shots = Put(@, e.k, [inst |-> e.i, cam |-> e.c]),
                                                !.insts = Put(@, e.i, P!Comp(P!Inv(s.cams[e.c]), p))]
              [] e.op = "delshot" -> [s EXCEPT !.shots = [x \in DOMAIN s.shots \ {e.k} |-> s.shots[x]]]
              [] e.op = "inst" -> [s EXCEPT !.insts = Put(@, e.k, p)]
              [] e.op = "cam" -> [s EXCEPT !.cams = Put(@, e.k, p)]
              [] e.op = "place" -> [s EXCEPT !.insts = Put(@, s.shots[e.k].inst, P!Comp(P!Inv(s.cams[s.shots[e.k].cam]), p))]
              [] e.op = "move" -> IF Movable(s, e.k) THEN [s EXCEPT !.insts = Put(@, s.shots[e.k].inst, p)] ELSE s
              [] OTHER -> s
      refused == e.op = "move" /\ ~Movable(s, e.k)
  IN IF refused /\ e.exc = "" THEN No("a shot whose pose depends on a rig was moved by itself")
     ELSE IF ~refused /\ e.exc # "" THEN No("rig " \o e.op \o " failed: " \o e.exc)
     ELSE LET why == DumpWhy(s2, e.dump) IN IF why # "" THEN No("after " \o e.op \o ": " \o why) ELSE Ok(s2)

MStep(case, s, e) ==
  IF case.kind = "rig" THEN Rig(s, e)
  ELSE IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE CASE e.op = "alg" -> V(s, Alg(e))
         [] e.op = "pts" -> V(s, Pts(e))
         [] e.op = "similarity" -> V(s, Similar(e))
         [] OTHER ->
            LET q == CASE e.op = "new" -> PoseOf(e.p)
                       [] e.op = "setR" -> P!WithR(s, e.p.n, e.p.M)
                       [] e.op = "setT" -> P!WithT(s, e.p.t)
                       [] e.op = "setO" -> P!WithO(s, e.p.t)
                       [] e.op = "setW2C" -> PoseOf(e.p)
                       [] e.op = "setC2W" -> P!Inv(PoseOf(e.p))
                why == Views(q, e)
            IN IF why = "" THEN Ok(q) ELSE No(e.op \o ": " \o why)
=============================================================================
