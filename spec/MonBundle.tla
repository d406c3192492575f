----------------------------- MODULE MonBundle -----------------------------
(* Bundle adjustment: what may move, that nothing else does, and that the       *)
(* result is a minimum of the robust objective along every free coordinate.     *)
(* Image residuals and their deviations are in 1e-9, everything else in 1e-6.   *)
EXTENDS TraceBase, NearOps, TLC
F == INSTANCE FixedPoint
MStart(case) == 0
E6 == 1000000
Near(a, b, t) == Abs(a - b) <= t
NearV(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Near(a[i], b[i], t)
CapW == 25000000
Wd(v, sd) == LET w == IF Abs(v) \div sd > 30 THEN CapW ELSE F!FDiv(v, sd) IN IF Abs(w) > CapW THEN CapW ELSE w
RECURSIVE SqSum(_, _, _)
SqSum(v, sd, i) == IF i > Len(v) THEN 0 ELSE LET w == Wd(v[i], sd) IN F!FMul(w, w) + SqSum(v, sd, i + 1)
(* costs add up to at most Top *)
Top == 1000000000
RECURSIVE SumTo(_, _, _)
SumTo(v, i, a) == IF i > Len(v) \/ a >= Top THEN Min2(a, Top) ELSE SumTo(v, i + 1, a + Min2(v[i], Top))
Cap(v) == SumTo(v, 1, 0)
Rest(s) == SubSeq(s, 2, Len(s))
Rho(c, s) == LET a2 == F!FMul(c.a, c.a)
                 t == F!FDiv(s, a2)
             IN CASE c.loss = "TrivialLoss" -> s
                [] c.loss = "HuberLoss" -> IF s <= a2 THEN s ELSE (2 * F!FMul(c.a, F!FSqrt(s))) - a2
                [] c.loss = "SoftLOneLoss" -> 2 * F!FMul(a2, F!FSqrt(E6 + t) - E6)
                [] c.loss = "CauchyLoss" -> F!FMul(a2, F!FLn(E6 + t))
                [] c.loss = "ArctanLoss" -> F!FMul(c.a, F!FAtan2(s, c.a))
(* ---------------------------------------------------------- who takes part *)
PerPoint(e) == TLCEval([p \in 1..e.npts |-> {e.obs[k][1] : k \in {j \in 1..Len(e.obs) : e.obs[j][2] = p}}])
Mate(e) == TLCEval([s \in 1..Len(e.shots) |-> Set(e.insts[e.shots[s].inst])])
Tri(e) == 0
InSet(e) == LET S == Interiors(PerPoint(e), Mate(e), Mate(e)[e.center], e.cfg.radius - 1, e.cfg.min, e.cfg.max) IN CHOOSE I \in S : Cardinality(S) = 1
Unique(e) == e.what # "local" \/ Cardinality(Interiors(PerPoint(e), Mate(e), Mate(e)[e.center], e.cfg.radius - 1, e.cfg.min, e.cfg.max)) = 1
World(e) ==
  LET all == 1..Len(e.shots)
      per == PerPoint(e)
      I == IF e.what = "local" THEN InSet(e) ELSE all
      B == IF e.what = "local" THEN Boundary(per, Mate(e), I) ELSE {}
      pts == IF e.what = "local" THEN Seen(per, I) ELSE 1..e.npts
      shots == IF e.what = "poses" THEN Set(e.listed) ELSE I \cup B
      ks == {k \in 1..Len(e.obs) : e.obs[k][1] \in shots /\ e.obs[k][2] \in pts}
      moving == {i \in 1..Len(e.insts) : IF e.what = "bundle" THEN TRUE ELSE IF e.what = "local" THEN Set(e.insts[i]) \subseteq I ELSE Set(e.insts[i]) \subseteq Set(e.listed)}
  IN [I |-> I, B |-> B, pts |-> pts, shots |-> shots, ks |-> ks, moving |-> moving,
      mpts |-> IF e.what = "poses" THEN {} ELSE pts,
      cams |-> IF e.what = "bundle" /\ e.cfg.opt = 1 THEN 1..Len(e.before.cams) ELSE {},
      rigs |-> IF e.what = "bundle" /\ Len(e.shots) \div Len(e.lever) > 10 THEN {r \in 1..Len(e.lever) : e.lever[r] = 0} ELSE {},
      bias |-> IF e.what = "bundle" /\ e.cfg.bias = 1 THEN 1..Len(e.before.cams) ELSE {}]
(* ------------------------------------------------------------ the objective *)
HasGps(x) == x.gps # <<>> /\ x.acc >= 0
Mean3(e, i) == LET Q == SelectSeq(e.insts[i], LAMBDA s : HasGps(e.shots[s]))
                   n == Len(Q)
               IN [n |-> n, m |-> IF n = 0 THEN <<0, 0, 0>> ELSE [k \in 1..3 |-> Total([j \in 1..n |-> e.shots[Q[j]].gps[k]]) \div n],
                   sd |-> IF n = 0 THEN 1 ELSE Total([j \in 1..n |-> e.shots[Q[j]].acc]) \div n]
Moved(b, m) == LET r(k) == F!FMul(b.R[k][1], m[1]) + F!FMul(b.R[k][2], m[2]) + F!FMul(b.R[k][3], m[3])
               IN [k \in 1..3 |-> F!FMul(b.s, r(k)) + b.t[k]]
Ident == [R |-> <<<<E6, 0, 0>>, <<0, E6, 0>>, <<0, 0, E6>>>>, t |-> <<0, 0, 0>>, s |-> E6]
(* an instance whose images have several cameras has no unique bias *)
OneBias(e, i) == Cardinality({e.shots[s].cam : s \in Set(e.insts[i])}) = 1
GpsCost(e, w, i, org, bias) ==
  LET g == Mean3(e, i)
      b == IF e.cfg.bias = 1 THEN bias ELSE Ident
  IN IF e.cfg.gps = 0 \/ g.n = 0 \/ i \notin w.moving THEN 0
     ELSE LET m == IF e.cfg.bias = 1 THEN Moved(b, g.m) ELSE g.m IN SqSum([k \in 1..3 |-> org[k] - m[k]], g.sd, 1)
Total2(e, w) == Total([g \in 1..Len(e.gcp) |-> (IF e.gcp[g].tri = 1 \/ e.gcp[g].lla # <<>> THEN 1 ELSE 0) + Cardinality({k \in 1..Len(e.gobs) : e.gobs[k][1] = g /\ e.gobs[k][2] \in w.shots})])
Weight(e, w) == LET n == Cardinality({e.shots[s].inst : s \in w.shots}) + Cardinality(w.ks) IN (e.cfg.gw * n) \div Max2(1, Total2(e, w))
UseGcp(e, g) == e.what # "poses" /\ e.cfg.gcp = 1 /\ (e.gcp[g].tri = 1 \/ e.gcp[g].lla # <<>>)
UpCost(v) == LET n == F!Hyp(F!Hyp(v[1] \div 1000, v[2] \div 1000), v[3] \div 1000)
                 W == n * 1000
             IN IF n > 2000 THEN 2 * (F!FLn(n) + 6907755) ELSE F!FLn(E6 + F!FMul(Min2(W, 40000000), Min2(W, 40000000)))
CamCost(c) == Cap([k \in 1..Len(c.v) |-> LET x == c.v[k]
                                              z == IF x[1] = 1 THEN F!FLn(x[2]) ELSE x[2]
                                          IN SqSum(<<z>>, x[3], 1)])
(* cost of the terms listed in v *)
Cost(e, w, wt, v, base) ==
  LET cost(k) == Rho(e.cfg, SqSum(Rest(v.o[k]), e.obs[v.o[k][1]][3], 1))
      obs == Cap([k \in 1..Len(v.o) |-> IF v.o[k][1] \in w.ks THEN cost(k) ELSE 0])
      dep == Cap([k \in 1..Len(v.d) |-> IF v.d[k][1] \in w.ks THEN Rho(e.cfg, SqSum(Rest(v.d[k]), e.obs[v.d[k][1]][4], 1)) ELSE 0])
      up == IF e.what = "bundle" /\ e.cfg.up = 1 THEN Cap([k \in 1..Len(v.up) |-> UpCost(Rest(v.up[k]))]) ELSE 0
      cam == IF e.what = "bundle" /\ e.cfg.opt = 1 THEN Cap([k \in 1..Len(v.cam) |-> CamCost(v.cam[k])]) ELSE 0
      rig == IF w.rigs = {} THEN 0 ELSE Cap([k \in 1..Len(v.rig) |-> IF v.rig[k][1] \in w.rigs THEN SqSum(SubSeq(v.rig[k], 2, 4), e.cfg.rigr, 1) + SqSum(SubSeq(v.rig[k], 5, 7), e.cfg.rigt, 1) ELSE 0])
      gob == Cap([k \in 1..Len(v.g) |-> LET x == e.gobs[v.g[k][1]] IN IF UseGcp(e, x[1]) /\ x[2] \in w.shots THEN Rho(e.cfg, SqSum(Rest(v.g[k]), F!FDiv(E6, wt), 1)) ELSE 0])
      gx == Cap([k \in 1..Len(v.gx) |-> LET g == v.gx[k][1]
                                             y == e.gcp[g]
                                             d == [j \in 1..3 |-> v.gx[k][j + 1] - y.lla[j]]
                                         IN IF UseGcp(e, g) /\ y.lla # <<>> THEN SqSum(<<d[1], d[2]>>, F!FDiv(e.cfg.hsd, wt), 1) + (IF y.alt = 1 THEN SqSum(<<d[3]>>, F!FDiv(e.cfg.vsd, wt), 1) ELSE 0) ELSE 0])
  IN Cap(<<obs, dep, up, cam, rig, gob, gx>>)
Bias(e, base, over, i) == LET c == e.shots[e.insts[i][1]].cam
                              hit == {k \in 1..Len(over) : over[k].i = c}
                          IN IF hit # {} THEN over[CHOOSE k \in hit : TRUE] ELSE base.bias[c]
Gps(e, w, v, base, all) == LET org(i) == LET hit == {k \in 1..Len(v.org) : v.org[k][1] = i} IN Rest(IF hit = {} THEN base.org[i] ELSE v.org[CHOOSE k \in hit : TRUE])
                          IN Cap([i \in 1..Len(e.insts) |-> IF i \in all THEN GpsCost(e, w, i, org(i), Bias(e, base, v.bias, i)) ELSE 0])
(* the same terms at the result *)
At(base, v) == [o |-> [k \in 1..Len(v.o) |-> base.o[v.o[k][1]]],
                d |-> [k \in 1..Len(v.d) |-> base.d[CHOOSE j \in 1..Len(base.d) : base.d[j][1] = v.d[k][1]]],
                up |-> [k \in 1..Len(v.up) |-> base.up[v.up[k][1]]], cam |-> [k \in 1..Len(v.cam) |-> base.cam[v.cam[k].i]],
                rig |-> [k \in 1..Len(v.rig) |-> base.rig[v.rig[k][1]]], g |-> [k \in 1..Len(v.g) |-> base.g[v.g[k][1]]], gx |-> [k \in 1..Len(v.gx) |-> base.gx[v.gx[k][1]]],
                org |-> <<>>, bias |-> <<>>]
(* a residual far outside is capped: the comparison says nothing *)
Far(e, w, b) == (\E k \in w.ks : \E j \in 2..Len(b.o[k]) : Abs(b.o[k][j]) \div e.obs[k][3] > 19) \/ (\E k \in 1..Len(b.d) : Abs(b.d[k][2]) \div e.obs[b.d[k][1]][4] > 19)
                \/ (e.cfg.gps = 1 /\ \E i \in w.moving : LET g == Mean3(e, i) IN g.n > 0 /\ \E k \in 1..3 : Abs(b.org[i][k + 1] - g.m[k]) \div g.sd > 19)
                \/ (e.cfg.gcp = 1 /\ \E k \in 1..Len(b.g) : \E j \in 2..Len(b.g[k]) : Abs(b.g[k][j]) > 20000000)
                \/ (e.cfg.gcp = 1 /\ \E k \in 1..Len(b.gx) : \E j \in 2..4 : Abs(b.gx[k][j]) > 60000000)
                (* a control point of unknown height seen once starts far from where it belongs *)
                \/ (e.cfg.gcp = 1 /\ \E g \in 1..Len(e.gcp) : e.gcp[g].tri = 0 /\ e.gcp[g].alt = 0 /\ e.gcp[g].lla # <<>> /\ \E k \in 1..Len(e.gobs) : e.gobs[k][1] = g)
Live(e, w, p) == CASE p.w = "inst" -> p.i \in w.moving [] p.w = "point" -> p.i \in w.mpts [] p.w = "cam" -> p.i \in w.cams [] p.w = "rig" -> p.i \in w.rigs
                 [] p.w = "bias" -> p.i \in w.bias [] p.w = "gcp" -> UseGcp(e, p.i)
Both(e, w, wt, v, base) == Cap(<<Cost(e, w, wt, v, base), Gps(e, w, v, base, 1..Len(e.insts))>>)
Delta(e, w, wt, p) == Both(e, w, wt, p.v, e.base) - Both(e, w, wt, At(e.base, p.v), e.base)
Whole(e, w, wt, b) == Both(e, w, wt, b, b)
(* an adjustment that ran out of iterations may be a little off *)
Slack(e, whole) == (IF e.conv = 0 THEN 30000 + (whole \div 50) ELSE 0) + 3000 + (whole \div 300) + (IF e.cfg.up = 1 THEN 20000 ELSE 0)
Lower(e, w, wt) == LET sl == Slack(e, Whole(e, w, wt, e.base)) IN {k \in 1..Len(e.probes) : Live(e, w, e.probes[k]) /\ Delta(e, w, wt, e.probes[k]) < -sl}
Frame(e, w) == (\A i \in 1..Len(e.insts) : i \in w.moving \/ NearV(e.after.insts[i], e.before.insts[i], 2))
               /\ (\A p \in 1..e.npts : p \in w.mpts \/ e.after.points[p] = e.before.points[p])
               /\ (\A c \in 1..Len(e.before.cams) : c \in w.cams \/ e.after.cams[c] = e.before.cams[c])
               /\ (\A r \in 1..Len(e.lever) : r \in w.rigs \/ NearV(e.after.rigs[r], e.before.rigs[r], 2))
               /\ (e.what # "bundle" => e.after.bias = e.before.bias)
               /\ e.after.rest = e.before.rest
Errors(e, w) == LET got == {<<e.errs[k][1], e.errs[k][2]>> : k \in 1..Len(e.errs)}
                    want == IF e.what = "poses" THEN {} ELSE {<<e.obs[k][2], e.obs[k][1]>> : k \in w.ks}
                IN got = want /\ \A k \in w.ks : \A j \in 1..Len(e.errs) : (e.errs[j][1] = e.obs[k][2] /\ e.errs[j][2] = e.obs[k][1]) => NearV(SubSeq(e.errs[j], 3, Len(e.errs[j])), Rest(e.base.o[k]), 200)
Counts(e, w) == CASE e.what = "bundle" -> e.num = <<Len(e.shots), e.npts, Cardinality(w.ks)>>
                [] e.what = "local" -> e.num = <<Cardinality(w.I), Cardinality(w.B), Len(e.shots) - Cardinality(w.I \cup w.B), Cardinality(w.pts), Cardinality(w.ks)>> /\ Set(e.ids) = w.pts /\ Len(e.ids) = Cardinality(w.pts)
                [] OTHER -> TRUE
Multi(e) == e.cfg.bias = 1 /\ \E i \in 1..Len(e.insts) : ~OneBias(e, i)
Adjust(e) ==
  IF ~Unique(e) THEN Ok(0)
  ELSE LET w == World(e)
           wt == Weight(e, w)
       IN IF ~Frame(e, w) THEN No("something moved that may not: " \o e.what)
          ELSE IF ~Counts(e, w) THEN No("the report is wrong: " \o e.what)
          ELSE IF ~Errors(e, w) THEN No("the reprojection errors are wrong: " \o e.what)
          ELSE IF Far(e, w, e.base) \/ Multi(e) \/ wt = 0 \/ Whole(e, w, wt, e.base) >= Top THEN Ok(0)
          ELSE IF ~Far(e, w, e.base0) /\ Whole(e, w, wt, e.base) > Whole(e, w, wt, e.base0) + Slack(e, Whole(e, w, wt, e.base0)) THEN No("the cost increased: " \o e.what)
          ELSE IF e.conv = 0 /\ e.what # "bundle" THEN Ok(0)
          ELSE IF e.exact = 1 /\ e.cfg.loss \notin {"ArctanLoss", "CauchyLoss"} /\ e.what = "bundle" /\ e.cfg.up = 0 /\ ~Far(e, w, e.base0) /\ Whole(e, w, wt, e.base) > 100000 THEN No("the exact scene is not recovered")
          ELSE LET low == Lower(e, w, wt)
               IN IF low # {} THEN LET p == e.probes[CHOOSE k \in low : TRUE] IN No("a step lowers the cost: " \o e.what \o " " \o p.w)
                  ELSE Ok(0)
NearCase(e) ==
  LET per == [p \in 1..Len(e.obs) |-> Set(e.obs[p])]
      mate == [s \in 1..Len(e.rig) |-> {t \in 1..Len(e.rig) : e.rig[t] = e.rig[s]}]
      sets == TLCEval(Interiors(per, mate, mate[e.c], e.r - 1, e.min, e.max))
      good(i, o) == Set(i) \in sets /\ Set(o) = Boundary(per, mate, Set(i)) /\ Len(i) = Cardinality(Set(i))
  IN IF ~good(e.inner, e.outer) THEN No("the neighborhood is wrong")
     ELSE IF e.flat = 1 /\ ~good(e.inner2, e.outer2) THEN No("shot_neighborhood is wrong")
     ELSE Ok(0)
Detect(e) == LET want == IF e.rows < 3 \/ e.line = 1 THEN "orientation_prior" ELSE "naive"
             IN IF e.rows >= 3 /\ e.line = 2 THEN Ok(0) ELSE IF Set(e.got) # {want} THEN No("the kind of alignment is wrong") ELSE Ok(0)
MStep(case, s, e) ==
  IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE CASE e.op = "adjust" -> Adjust(e) [] e.op = "near" -> NearCase(e) [] e.op = "detect" -> Detect(e)
=============================================================================
