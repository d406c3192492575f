------------------------------ MODULE MonPairs ------------------------------
(* Judges recorded pair selections.                                          *)
EXTENDS TraceBase
P == INSTANCE PairSel WITH Images <- {}, Places <- {}, Ks <- {}, pairs <- 0, refs <- 0, remaining <- 0, cur <- 0, ordered <- 0

(* case.imgs : image -> [x, y, gps, t, cam, vec, bow]; ids are strings       *)
MStart(case) == 0

Sq(a) == a * a
DistOf(im, a, b) == Sq(im[a].x - im[b].x) + Sq(im[a].y - im[b].y)
TimeOf(im, a, b) == Abs(im[a].t - im[b].t)
VecOf(im, a, b) == Total([i \in 1..Len(im[a].vec) |-> Sq(im[a].vec[i] - im[b].vec[i])])
BowOf(im, a, b) == Total([i \in 1..Len(im[a].bow) |-> Abs(im[a].bow[i] - im[b].bow[i])])
Pairs(seq) == {{p[1], p[2]} : p \in Set(seq)}

HasAll(im, S) == \A i \in S : im[i].gps

(* pairs by GPS distance, both switches zero means none *)
GpsMust(im, R, C, k, lim) ==
  IF (k = 0 /\ lim < 0) \/ ~HasAll(im, R \cup C) THEN {} ELSE P!MustPairs(R, C, k, lim, LAMBDA a, b : DistOf(im, a, b))
GpsMay(im, R, C, k, lim) ==
  IF (k = 0 /\ lim < 0) \/ ~HasAll(im, R \cup C) THEN {} ELSE P!MayPairs(R, C, k, lim, LAMBDA a, b : DistOf(im, a, b))
TimeMust(im, R, C, k) == IF k = 0 THEN {} ELSE P!MustPairs(R, C, k, -1, LAMBDA a, b : TimeOf(im, a, b))
TimeMay(im, R, C, k) == IF k = 0 THEN {} ELSE P!MayPairs(R, C, k, -1, LAMBDA a, b : TimeOf(im, a, b))
OrderMust(rs, cs, k) == IF k = 0 THEN {} ELSE P!MustOrder(rs, cs, k)
OrderMay(rs, cs, k) == IF k = 0 THEN {} ELSE P!MayOrder(rs, cs, k)

(* appearance-based selection; w is "vec" (VLAD) or "bow" *)
Known(im, w, S) == {i \in S : IF w = "vec" THEN Len(im[i].vec) > 0 ELSE Len(im[i].bow) > 0}
AppD(im, w, a, b) == IF w = "vec" THEN VecOf(im, a, b) ELSE BowOf(im, a, b)
CandsOf(im, w, R, C, gk, glim, r) ==
  IF gk = 0 /\ glim < 0 THEN C
  ELSE LET gp == GpsMay(im, R, C, gk, glim)
       IN IF gp = {} /\ w = "vec" THEN C ELSE {c \in R \cup C : {r, c} \in gp /\ c # r}
AppSel(im, w, R, C, k, gk, glim, other, must) ==
  IF k = 0 THEN {}
  ELSE UNION {
    LET cs == Known(im, w, CandsOf(im, w, R, C, gk, glim, r))
        same == {c \in cs : im[c].cam = im[r].cam}
        D(a, b) == AppD(im, w, a, b)
        pick(S) == IF must THEN P!MustOf(r, S, k, -1, D) ELSE P!MayOf(r, S, k, -1, D)
    IN {{r, c} : c \in IF other THEN pick(same) \cup pick(cs \ same) ELSE pick(cs)}
    : r \in Known(im, w, R)}
(* with ties among the preempting GPS neighbours the candidate set is open   *)
Tied(im, R, C, gk, glim) == GpsMust(im, R, C, gk, glim) # GpsMay(im, R, C, gk, glim)
AppMust(im, w, R, C, k, gk, glim, other) == IF Tied(im, R, C, gk, glim) THEN {} ELSE AppSel(im, w, R, C, k, gk, glim, other, TRUE)
AppMay(im, w, R, C, k, gk, glim, other) ==
  IF k = 0 THEN {} ELSE IF Tied(im, R, C, gk, glim) THEN P!AllPairs(R, C) ELSE AppSel(im, w, R, C, k, gk, glim, other, FALSE)
GraphOn(im, R, C, n) == n > 0 /\ Cardinality(C) >= 4 /\ HasAll(im, R \cup C)
GraphMust(im, R, C, n) == IF GraphOn(im, R, C, n) THEN P!NNEdges(R \cup C, LAMBDA a, b : DistOf(im, a, b)) \cap P!AllPairs(R, C) ELSE {}
GraphMay(im, R, C, n) == IF GraphOn(im, R, C, n) THEN P!AllPairs(R, C) ELSE {}

Show(S) == ToString(CHOOSE x \in S : TRUE)
Within(what, must, got, may) ==
  IF ~(must \subseteq got) THEN what \o ": pair missing " \o Show(must \ got)
  ELSE IF ~(got \subseteq may) THEN what \o ": pair not expected " \o Show(got \ may)
  ELSE ""
Count(what, must, n, may) ==
  IF n < Cardinality(must) \/ n > Cardinality(may) THEN "report: wrong number of pairs by " \o what ELSE ""
FirstWhy(seq) == LET bad == SelectSeq(seq, LAMBDA x : x # "") IN IF Len(bad) = 0 THEN "" ELSE bad[1]
Verdict(s, why) == IF why = "" THEN Ok(s) ELSE No(why)

(* distances reported with appearance pairs are those of the pair *)
ScoreWhy(im, w, sc) ==
  IF \A x \in Set(sc) : x[3] = AppD(im, w, x[1], x[2]) THEN "" ELSE "reported distance of a pair is wrong"

Meta(case, e) ==
  LET im == case.imgs
      R == Set(e.refs)
      C == Set(e.cands)
      g == e.cfg
      every == HasAll(im, R \cup C)
      gk == IF every THEN g.gk ELSE 0
      glim == IF every THEN g.glim ELSE -1
      gr == IF every THEN g.graph ELSE 0
      off == gk = 0 /\ glim < 0 /\ g.tk = 0 /\ g.ok = 0 /\ g.bk = 0 /\ g.vk = 0 /\ gr = 0
      rs == e.refs     (* sorted by the call *)
      dM == GpsMust(im, R, C, gk, glim)
      dA == GpsMay(im, R, C, gk, glim)
      gM == GraphMust(im, R, C, gr)
      gA == GraphMay(im, R, C, gr)
      tM == TimeMust(im, R, C, g.tk)
      tA == TimeMay(im, R, C, g.tk)
      oM == OrderMust(rs, e.cands, g.ok)
      oA == OrderMay(rs, e.cands, g.ok)
      bM == AppMust(im, "bow", R, C, g.bk, g.bgk, g.bglim, g.both)
      bA == AppMay(im, "bow", R, C, g.bk, g.bgk, g.bglim, g.both)
      vM == AppMust(im, "vec", R, C, g.vk, g.vgk, g.vglim, g.voth)
      vA == AppMay(im, "vec", R, C, g.vk, g.vgk, g.vglim, g.voth)
      must == IF off THEN P!AllPairs(R, C) ELSE dM \cup gM \cup tM \cup oM \cup bM \cup vM
      may == IF off THEN P!AllPairs(R, C) ELSE dA \cup gA \cup tA \cup oA \cup bA \cup vA
      got == Pairs(e.got)
  IN FirstWhy(<<Within("selection", must, got, may),
       IF P!OrderedOk(got, R, e.got) THEN "" ELSE "a pair is repeated, or does not start with a reference image",
       IF off THEN IF \A k \in 1..6 : e.rep[k] = 0 THEN "" ELSE "report: strategies were off"
       ELSE FirstWhy(<<Count("distance", dM, e.rep[1], dA), Count("graph", gM, e.rep[2], gA), Count("time", tM, e.rep[3], tA),
             Count("order", oM, e.rep[4], oA), Count("bow", bM, e.rep[5], bA), Count("vlad", vM, e.rep[6], vA)>>)>>)

MStep(case, s, e) ==
  IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE LET im == case.imgs
           R == Set(e.refs)
           C == Set(e.cands)
  IN CASE e.op = "distance" -> Verdict(s, Within("by distance", GpsMust(im, R, C, e.k, e.lim), Pairs(e.got), GpsMay(im, R, C, e.k, e.lim)))
       [] e.op = "time" -> Verdict(s, Within("by time", TimeMust(im, R, C, e.k), Pairs(e.got), TimeMay(im, R, C, e.k)))
       [] e.op = "order" -> Verdict(s, Within("by order", OrderMust(e.refs, e.cands, e.k), Pairs(e.got), OrderMay(e.refs, e.cands, e.k)))
       [] e.op = "graph" -> Verdict(s, Within("by graph", GraphMust(im, R, C, e.k), Pairs(e.got), GraphMay(im, R, C, e.k)))
       [] e.op = "vlad" -> Verdict(s, FirstWhy(<<Within("by VLAD", AppMust(im, "vec", R, C, e.k, e.gk, e.glim, e.oth), Pairs(e.got),
                                       AppMay(im, "vec", R, C, e.k, e.gk, e.glim, e.oth)), ScoreWhy(im, "vec", e.score)>>))
       [] e.op = "bow" -> Verdict(s, FirstWhy(<<Within("by BoW", AppMust(im, "bow", R, C, e.k, e.gk, e.glim, e.oth), Pairs(e.got),
                                       AppMay(im, "bow", R, C, e.k, e.gk, e.glim, e.oth)), ScoreWhy(im, "bow", e.score)>>))
       [] e.op = "ordered" -> IF P!OrderedOk(Pairs(e.cands), R, e.got) THEN Ok(s) ELSE No("ordered pairs: a pair is lost, repeated, or does not start with a reference image")
       [] e.op = "metadata" -> Verdict(s, Meta(case, e))
=============================================================================
