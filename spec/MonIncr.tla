------------------------------ MODULE MonIncr ------------------------------
(* Decides recorded incremental reconstructions, candidate pairs, resections, *)
(* bundle clocks, point filters and realignments.                             *)
EXTENDS TraceBase, FixedPoint
MStart(c) == 0
Near(a, b, tol) == /\ Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Prefix(s, n) == SubSeq(s, 1, n)

(* ---- the run against Incremental: the tries in the order of the queue ---- *)
Mates(e, i) == LET k == CHOOSE k \in 1..Len(e.mates) : e.mates[k][1] = i IN Set(e.mates[k][2])
Find(e, pr, from) == {k \in from..Len(e.pairs) : e.pairs[k] = pr}
RECURSIVE Walk(_, _, _, _, _)
\* t: next try; q: next position of the queue; free images; recs: sets of images
Walk(e, t, q, free, recs) ==
  IF t > Len(e.tries)
  THEN IF \E k \in q..Len(e.pairs) : {e.pairs[k][1], e.pairs[k][2]} \subseteq free THEN "a candidate pair of free images was not tried"
       ELSE IF Set(e.left) # free THEN "the images reported as not reconstructed are not the free ones"
       ELSE IF Len(e.recs) # Len(recs) THEN "number of reconstructions"
       ELSE IF \E r \in Set(recs) : Cardinality({k \in 1..Len(recs) : recs[k] = r}) # Cardinality({k \in 1..Len(e.recs) : Set(e.recs[k]) = r}) THEN "a reconstruction does not have the images it grew with"
       ELSE ""
  ELSE
  LET y == e.tries[t]
      at == Find(e, y.pair, q)
  IN IF at = {} THEN "a pair was tried that is not the next candidate"
     ELSE LET k == Min(at) IN
       IF \E j \in q..(k - 1) : {e.pairs[j][1], e.pairs[j][2]} \subseteq free THEN "a candidate pair of free images was passed over"
       ELSE IF ~({y.pair[1], y.pair[2]} \subseteq free) THEN "a reconstruction was started from an image already used"
       ELSE IF y.common # e.common[k] THEN "number of common tracks of the pair"
       ELSE IF y.ok = 0 THEN Walk(e, t + 1, k + 1, free, recs)
       ELSE LET c0 == Mates(e, y.pair[1]) \cup Mates(e, y.pair[2])
                RECURSIVE Grow(_, _, _)
                Grow(s, fr, cur) ==
                  IF s > Len(y.steps) THEN [why |-> "", fr |-> fr, cur |-> cur]
                  ELSE LET z == y.steps[s] I == Set(z.images) IN
                       IF z.images # z.shots THEN [why |-> "the step and its resection disagree on the images", fr |-> fr, cur |-> cur]
                       ELSE IF ~(\E i \in I \cap fr : I = Mates(e, i)) THEN [why |-> "a step adds something else than the free images of one instance", fr |-> fr, cur |-> cur]
                       ELSE IF I \cap cur # {} THEN [why |-> "an image was added twice", fr |-> fr, cur |-> cur]
                       ELSE IF z.inliers < e.min_inliers \/ z.inliers > z.common \/ z.common < 5 THEN [why |-> "an image was added without enough inliers", fr |-> fr, cur |-> cur]
                       ELSE Grow(s + 1, fr \ I, cur \cup I)
                g == TLCEval(Grow(1, free \ c0, c0))
            IN IF g.why # "" THEN g.why ELSE Walk(e, t + 1, k + 1, g.fr, Append(recs, g.cur))
Run(e) ==
  IF e.exc # "" THEN "the reconstruction failed: " \o e.exc
  ELSE IF e.candidates # Len(e.pairs) THEN "number of candidate pairs reported"
  ELSE IF \E k \in 2..Len(e.recs) : Len(e.recs[k]) > Len(e.recs[k - 1]) THEN "reconstructions are not sorted by their number of images"
  ELSE LET w == Walk(e, 1, 1, Set(e.images), <<>>) IN
       IF w # "" THEN w
       ELSE IF e.whole = 1 /\ ~(Len(e.recs) = 1 /\ e.left = <<>>) THEN "exact views of one scene do not give one reconstruction"
       ELSE IF \E k \in 1..Len(e.behind) : e.behind[k][2] >= 30 THEN "an image with many good points was left behind"
       ELSE ""
RecOk(e) ==
  IF e.exc # "" THEN "reading the reconstruction failed: " \o e.exc
  ELSE IF e.missing_camera # <<>> THEN "a shot does not have the camera of its image"
  ELSE IF \E r \in Set(e.rig) : r[2] # r[4] \/ r[3] # r[5] THEN "a shot is not in its rig instance and rig camera"
  ELSE IF e.bad # <<>> THEN "a point of the reconstruction: " \o e.bad[1][2]
  ELSE IF e.worst > e.thr + e.thr \div 1000 + 3 THEN "an observation is off by more than the outlier threshold"
  ELSE ""
Rot(M, v) == [i \in 1..3 |-> FMul(M[i][1], v[1]) + FMul(M[i][2], v[2]) + FMul(M[i][3], v[3])]
Orth(M) == \A i, j \in 1..3 : Abs(FMul(M[i][1], M[j][1]) + FMul(M[i][2], M[j][2]) + FMul(M[i][3], M[j][3]) - (IF i = j THEN 1000000 ELSE 0)) < 200
Id3 == <<<<1000000, 0, 0>>, <<0, 1000000, 0>>, <<0, 0, 1000000>>>>
Truth(e) ==
  IF e.exc # "" THEN "reading the reconstruction failed: " \o e.exc
  ELSE IF e.sane = 0 THEN ""
  ELSE LET s == e.sim[1] M == e.sim[2] t == e.sim[3] IN
       IF ~Orth(M) \/ s < 1000 THEN "no similarity takes the reconstruction to the true scene"
       ELSE IF \E k \in 1..Len(e.got) : ~Near([i \in 1..3 |-> FMul(s, Rot(M, e.got[k])[i]) + t[i]], e.want[k], 6000) THEN "the geometry is not that of the true scene"
       ELSE IF \E k \in 1..Len(e.dirs) : ~Near(Rot(M, e.dirs[k][1]), e.dirs[k][2], 1500) THEN "a shot does not look where its image was taken"
       ELSE IF e.fixed = 1 /\ ~(Abs(s - 1000000) < 1000 /\ \A i \in 1..3 : Near(M[i], Id3[i], 1000)) THEN "exact positions did not fix the frame"
       ELSE IF e.fixed = 1 /\ \E k \in 1..Len(e.got) : ~Near(e.got[k], e.want[k], 20000) THEN "exact positions did not fix the frame"
       ELSE ""
Prior(e) ==
  IF e.exc # "" THEN "reconstructing from a prior failed: " \o e.exc
  ELSE IF e.before # e.after THEN "the poses of the prior changed"
  ELSE IF e.cams0 # e.cams1 THEN "the cameras of the prior changed"
  ELSE IF <<e.ref[1], e.ref[2], e.ref[3]>> # <<e.ref[4], e.ref[5], e.ref[6]>> THEN "the reference of the prior changed"
  ELSE LET P == {r[1] : r \in Set(e.before)} IN
       IF Set(e.left) # Set(e.images) \ P THEN "images reported as not reconstructed"
       ELSE IF e.counts # <<Cardinality(P), Cardinality(Set(e.images) \ P)>> THEN "numbers of images reported"
       ELSE IF e.missing_camera # <<>> THEN "a shot does not have the camera of its image"
       ELSE IF e.bad # <<>> THEN "a point of the reconstruction: " \o e.bad[1][2]
       ELSE IF e.clear = 1 /\ e.got # e.must THEN "a track with clear views was not triangulated"
       ELSE ""
Triang(e) ==
  IF e.exc # "" THEN "triangulating known poses failed: " \o e.exc
  ELSE IF e.shots # e.images THEN "images of the reconstruction"
  ELSE IF e.missing_camera # <<>> THEN "a shot does not have the camera of its image"
  ELSE IF e.bad # <<>> THEN "a point of the reconstruction: " \o e.bad[1][2]
  ELSE IF e.noisy = 0 /\ e.made # e.all THEN "a track of known views was not triangulated"
  ELSE IF e.noisy = 0 /\ \E k \in 1..Len(e.got) : ~Near(e.got[k], e.want[k], 5000) THEN "the known geometry was not kept"
  ELSE IF e.noisy = 0 /\ \E k \in 1..Len(e.dirs) : ~Near(e.dirs[k][1], e.dirs[k][2], 1000) THEN "the known rotations were not kept"
  ELSE ""
(* ---- candidate pairs ---- *)
Row(e, p) == {r \in Set(e.want) : {r[1], r[2]} = {p[1], p[2]}}
PairList(e, l) ==
  IF ~Distinct(l) THEN "a candidate pair is listed twice"
  ELSE IF \E p \in Set(l) : Row(e, p) = {} THEN "a candidate pair without common tracks"
  ELSE LET out(p) == (CHOOSE r \in Row(e, p) : TRUE)[4]
           com(p) == (CHOOSE r \in Row(e, p) : TRUE)[3] IN
       IF \E p \in Set(l) : com(p) < 50 THEN "a candidate pair has fewer than 50 common tracks"
       ELSE IF \E p \in Set(l) : 10 * out(p) < 3 * com(p) THEN "a candidate pair is explained by a rotation"
       ELSE IF \E r \in Set(e.want) : r[3] >= 50 /\ 10 * (r[4] - 2) >= 3 * r[3] /\ ~(\E p \in Set(l) : {p[1], p[2]} = {r[1], r[2]}) THEN "a good pair is not a candidate"
       ELSE IF \E j \in 2..Len(l) : out(l[j]) > out(l[j - 1]) + 2 THEN "the candidate pairs are not sorted"
       ELSE ""
Score(e) == IF e.exc # "" THEN e.exc ELSE IF \E r \in Set(e.rows) : r[3] # (IF 10 * r[2] >= 3 * r[1] THEN r[2] ELSE 0) THEN "reconstructability of a pair" ELSE ""
(* ---- resection ---- *)
Candidates(e) ==
  IF e.exc # "" THEN "listing the candidates failed: " \o e.exc
  ELSE IF Set(e.got) # Set(e.want) \/ Len(e.got) # Len(e.want) THEN "numbers of points of the candidate images"
  ELSE IF \E k \in 2..Len(e.got) : e.got[k][2] > e.got[k - 1][2] THEN "candidate images are not sorted by their points"
  ELSE ""
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
Resect(e) ==
  LET nin == e.plan[1] nout == e.plan[2] min == e.plan[3] IN
  IF e.exc # "" THEN "resection failed: " \o e.exc
  ELSE IF e.common # nin + nout THEN "number of common points"
  ELSE IF e.ok = 1 /\ e.inliers < min THEN "an image was added with too few inliers"
  ELSE IF e.ok = 0 /\ e.inliers >= min THEN "an image with enough inliers was not added"
  ELSE IF e.ok = 0 /\ (e.added # <<>> \/ e.new # <<>> \/ e.obs # <<>>) THEN "a failed resection changed the reconstruction"
  ELSE IF nin + nout < 5 /\ e.ok = 1 THEN "an image was added from fewer than five points"
  ELSE IF nin >= 9 /\ nin >= min /\ nout * 3 <= nin /\ e.ok = 0 THEN "an image with enough exact points was not added"
  ELSE IF e.ok = 0 THEN ""
  ELSE IF e.new # e.want_new \/ e.added # e.want_new \/ e.shots # e.want_new THEN "images added by the resection"
  ELSE IF Len(e.obs) # e.inliers THEN "the observations added are not the inliers"
  ELSE IF nin >= 12 /\ nout * 3 <= nin /\ (Count(e.obs, "in") # nin \/ Count(e.obs, "out") # 0 \/ e.inliers # nin) THEN "the inliers of the resection are not the exact points"
  ELSE IF nout * 3 <= nin /\ \E p \in Set(e.pose) : ~Near(p[1], p[2], IF nout = 0 THEN 400 ELSE 3 * e.thr) THEN "the pose of the added image"
  ELSE IF e.rig # <<>> /\ SubSeq(e.rig, 1, 4) # SubSeq(e.rig, 5, 8) THEN "the rig instance or rig camera of the added images"
  ELSE ""
Clock(e) ==
  IF e.exc # "" THEN e.exc
  ELSE IF e.bundle # e.want[1] THEN "when to bundle"
  ELSE IF e.retri # e.want[2] THEN "when to triangulate again"
  ELSE ""
(* ---- point filters ---- *)
Dist2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3])
Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)
Iso(e) ==
  LET P == e.pts n == Len(e.pts) k == e.k IN
  IF e.exc # "" THEN "removing isolated points failed: " \o e.exc
  ELSE IF e.removed # n - Len(e.kept) THEN "number of removed points"
  ELSE IF n <= k THEN IF e.removed # 0 THEN "isolated points removed from a small cloud" ELSE ""
  ELSE LET S == TLCEval([i \in 1..n |-> Total(SubSeq(Sorted([j \in 1..n |-> Dist2(P[i], P[j])]), 2, k + 1))])
           T == TLCEval(Total(S))
           V == TLCEval(n * Total([i \in 1..n |-> S[i] * S[i]]) - T * T)
           lim == V + 9 * (V \div 16)
           D(i) == n * S[i] - T
           must == {i \in 1..n : D(i) > 0 /\ D(i) * D(i) > lim + V \div 1000 + 16}
           may == {i \in 1..n : D(i) > 0 /\ D(i) * D(i) > lim - V \div 1000 - 16}
           kept == {x + 1 : x \in Set(e.kept)}
       IN IF V > 1200000000 \/ T > 40000 THEN ""
          ELSE IF must \cap kept # {} THEN "an isolated point was kept"
          ELSE IF ~(((1..n) \ kept) \subseteq may) THEN "a point that is not isolated was removed"
          ELSE ""
Cond(e) ==
  LET P == e.pts n == Len(e.pts) kept == Set(e.kept) IN
  IF e.exc # "" THEN "removing badly conditioned points failed: " \o e.exc
  ELSE IF e.removed # n - Len(e.kept) THEN "number of removed points"
  ELSE IF \E p \in Set(P) : p[2] < e.angle - 10 /\ p[1] \in kept THEN "a point seen under too small an angle was kept"
  ELSE IF \E p \in Set(P) : Abs(p[2] - e.angle) <= 10 \/ (p[2] > e.angle /\ (p[3] < 0 \/ p[3] > 900000000)) THEN ""
  ELSE LET C == SelectSeq(P, LAMBDA p : p[2] > e.angle)
           m == Len(C) IN
       IF m = 0 THEN ""
       ELSE LET \* in hundredths
                c == TLCEval([i \in 1..m |-> C[i][4] \div 10000])
                T == TLCEval(Total(c))
                avg == T \div m
                var == TLCEval(Total([i \in 1..m |-> LET d == Min2(Abs(c[i] - avg), 12000) IN d * d]) \div m)
                sig(v) == FSqrt(Min2(v, 2000) * 1000000) \div 1000
                clipped == \E i \in 1..m : Abs(c[i] - avg) > 12000
                root == CHOOSE r \in 0..12000 : r * r <= var /\ (r + 1) * (r + 1) > var
            IN IF clipped THEN ""
               ELSE IF \E i \in 1..m : c[i] > avg + root + 4 + avg \div 200 /\ C[i][1] \in kept THEN "a badly conditioned point was kept"
               ELSE IF \E i \in 1..m : c[i] < avg + root - 4 - avg \div 200 /\ C[i][1] \notin kept THEN "a well conditioned point was removed"
               ELSE ""
Counts(e) ==
  IF e.exc # "" THEN "counting tracks failed: " \o e.exc
  ELSE IF e.got # [k \in 1..Len(e.have) |-> <<e.have[k][1], Cardinality(Set(e.have[k][2]) \cap Set(e.tracks))>>] THEN "number of tracks of a shot" ELSE ""
Conn(e) ==
  IF e.exc # "" THEN "editing the tracks of a shot failed: " \o e.exc
  ELSE LET new(r) == IF r[1] = e.shot THEN (Set(r[2]) \cup Set(e.add)) \ Set(e.rem) ELSE Set(r[2]) IN
       IF \E k \in 1..Len(e.before) : e.after[k][1] # e.before[k][1] \/ Set(e.after[k][2]) # new(e.before[k]) THEN "tracks of a shot after adding and removing connections"
       ELSE IF \E t \in Set(e.tracks) : \E k \in 1..Len(e.after) : (t[1] \in Set(e.after[k][2])) # (e.after[k][1] \in Set(t[2])) THEN "the shots of a track and the tracks of a shot disagree"
       ELSE ""
(* ---- realignment of a map to another ---- *)
Re(e) ==
  LET A == {s[1] : s \in {x \in Set(e.shots) : x[2] = 1}}
      B == {s[1] : s \in {x \in Set(e.shots) : x[3] = 1}} IN
  IF e.exc # "" THEN "realigning failed: " \o e.exc
  ELSE IF Set(e.left) # A \cap B THEN "the shots of the realigned map are not those of both"
  ELSE IF \E p \in Set(e.poses) : ~Near(p[2], p[3], 200) THEN "a realigned shot is not at its position"
  ELSE IF \E p \in Set(e.poses) : ~Near(p[4], p[5], 20) THEN "a realigned shot does not have its rotation"
  ELSE IF \E p \in Set(e.poses) : p[6] # p[7] THEN "scale, component or camera of a realigned shot"
  ELSE IF \E k \in 1..Len(e.points) :
            LET p == e.points[k] m == e.moved[k] IN
            /\ p[3] = 1 /\ m[2] = 1
            /\ \/ (e.update = 0 \/ p[2] = "") /\ ~Near(p[4], m[3], 20)
               \/ e.update = 1 /\ p[2] # "" /\ LET s == IF p[6][1] = 0 THEN 1000000 ELSE p[6][1] IN ~Near(p[5], [i \in 1..3 |-> FMul(s, m[4][i])], 500)
       THEN "a point of the realigned map did not follow its closest shot"
  ELSE ""
Why(e) == CASE e.op = "run" -> Run(e) [] e.op = "rec" -> RecOk(e) [] e.op = "truth" -> Truth(e) [] e.op = "prior" -> Prior(e) [] e.op = "triang" -> Triang(e)
            [] e.op = "pairs" -> (IF e.exc # "" THEN "listing candidate pairs failed: " \o e.exc ELSE LET a == PairList(e, e.seq) IN IF a # "" THEN a ELSE PairList(e, e.par))
            [] e.op = "score" -> Score(e) [] e.op = "candidates" -> Candidates(e) [] e.op = "resect" -> Resect(e) [] e.op = "clock" -> Clock(e)
            [] e.op = "isolated" -> Iso(e) [] e.op = "conditioned" -> Cond(e) [] e.op = "counts" -> Counts(e) [] e.op = "connections" -> Conn(e) [] e.op = "realign" -> Re(e)
MStep(c, st, e) == LET w == Why(e) IN IF w = "" THEN Ok(st) ELSE No(w)
=============================================================================
