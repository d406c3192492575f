------------------------------- MODULE MonRig -------------------------------
(* Decides recorded groupings of images into rig instances, calibrations of   *)
(* rig cameras, subsets and stored rigs.                                      *)
EXTENDS TraceBase
MStart(c) == 0
Near(a, b, tol) == \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Drop(im, t) == SelectSeq(im, LAMBDA x : x # t)
Fits(im, p) == {j \in 1..Len(p) : Drop(im, p[j]) # im /\ Drop(im, p[j]) # <<>>}
Rig(im, p) == IF Fits(im, p) = {} THEN 0 ELSE Min(Fits(im, p))
Group(e) ==
  LET n == Len(e.imgs)
      r == [i \in 1..n |-> Rig(e.imgs[i], e.pats)]
      key == [i \in 1..n |-> IF r[i] = 0 THEN <<>> ELSE Drop(e.imgs[i], e.pats[r[i]])]
      keys == {key[i] : i \in {j \in 1..n : r[j] # 0}}
      members(k) == LET s == SelectSeq([i \in 1..n |-> <<i, r[i]>>], LAMBDA x : x[2] # 0) IN SelectSeq(s, LAMBDA x : key[x[1]] = k)
  IN IF e.exc # "" THEN "grouping failed: " \o e.exc
     ELSE IF \E i \in 1..n : e.find[i][1] # r[i] \/ e.find[i][2] # key[i] THEN "the rig camera or instance of an image"
     ELSE IF e.single # SelectSeq([i \in 1..n |-> i], LAMBDA i : r[i] = 0) THEN "the images of no rig"
     ELSE IF ~Distinct([j \in 1..Len(e.inst) |-> e.inst[j][1]]) \/ {e.inst[j][1] : j \in 1..Len(e.inst)} # keys THEN "the instances found"
     ELSE IF \E j \in 1..Len(e.inst) : e.inst[j][2] # members(e.inst[j][1]) THEN "the images of an instance and their rig cameras"
     ELSE ""
Calib(e) ==
  LET ng == Len(e.groups)
      fulls(g) == Cardinality({f \in Set(e.full) : f[2] = g - 1 /\ f[3] = 1})
      cams == UNION {Set(e.groups[g]) : g \in {x \in 1..ng : fulls(x) > 0}}
      shared(c) == Cardinality({g \in 1..ng : c \in Set(e.groups[g])}) > 1
      size(g) == Cardinality({f \in Set(e.full) : f[2] = g - 1})
      \* a camera of two groups has the pose it has in the group of more instances
      owns(g) == \A h \in 1..ng : h = g \/ fulls(h) = 0 \/ Set(e.groups[h]) \cap Set(e.groups[g]) = {} \/ size(h) < size(g)
      \* a large noise, of one instance, is averaged: the mean depends on the reference in second order
      tol == IF e.noise = 0 THEN 50 ELSE IF e.noise < 10000 THEN 5 * e.noise ELSE 3000
  IN IF e.exc # "" THEN "calibrating the rig cameras failed: " \o e.exc
     ELSE IF Set(e.cams) # cams \/ Set(e.ids) # cams THEN "the rig cameras calibrated are not those of the complete instances"
     ELSE IF \E x \in Set(e.rel) : fulls(x[1] + 1) > 0 /\ (owns(x[1] + 1) \/ ~(shared(x[2]) \/ shared(x[3]))) /\ ~(Near(x[4], x[5], tol) /\ Near(x[6], x[7], 3 * tol)) THEN "the relative pose of two rig cameras"
     ELSE IF \E x \in Set(e.center) : fulls(x[1] + 1) > 0 /\ owns(x[1] + 1) /\ ~Near(x[2], <<0, 0, 0>>, 20) THEN "the rig cameras are not centred"
     ELSE IF e.count # e.fullcount THEN "number of reconstructed instances"
     ELSE IF ~({<<g[1], g[2]>> : g \in Set(e.grouping)} = Set(e.want_grouping) /\ Len(e.grouping) = Len(e.want_grouping)) THEN "instances grouped by their rig cameras"
     ELSE IF \E g \in Set(e.grouping) : g[3][1] # g[3][2] THEN "name of a group of rig cameras"
     ELSE IF e.per # e.want_per THEN "the rig assignment of an image"
     ELSE ""
Subset(e) ==
  LET c0 == {x[1] : x \in {y \in Set(e.cluster) : y[2] = 0}}
      ex == {x[1] : x \in {y \in Set(e.cluster) : y[2] = 2}}
      only(s, S) == SelectSeq(s, LAMBDA i : i \in S)
      run(s, S) == LET ord == only(e.order, S)
                       at(i) == CHOOSE k \in 1..Len(ord) : ord[k] = i
                   IN \A k \in 2..Len(s) : at(s[k]) = at(s[k - 1]) + 1
  IN IF e.exc # "" THEN "proposing subsets failed: " \o e.exc
     ELSE IF \E g \in Set(e.got) : (only(g[1], c0) = <<>>) \/ (ex # {} /\ only(g[1], ex) = <<>>) THEN "an empty subset is proposed"
     ELSE IF \E g \in Set(e.got) : ~(Set(g[1]) \subseteq c0 \cup ex) THEN "a subset has instances outside of the biggest cluster"
     ELSE IF \E g \in Set(e.got) : ~Distinct(g[1]) \/ Len(only(g[1], c0)) > e.size \/ Len(only(g[1], ex)) > e.size THEN "a subset is larger than configured"
     ELSE IF e.ties = 0 /\ \E g \in Set(e.got) : ~run(only(g[1], c0), c0) \/ ~run(only(g[1], ex), ex) THEN "a subset is not a run of consecutive instances"
     ELSE IF \E S \in {c0, ex} : Cardinality(S) <= 9 /\ UNION {Set(only(g[1], S)) : g \in Set(e.got)} # S THEN "an instance is never proposed"
     ELSE IF \E g \in Set(e.got) : g[2] # g[3] \/ g[3] # g[4] THEN "the images of a subset are not those of its instances"
     ELSE ""
Whole(e) ==
  LET done == \E k \in 1..Len(e.planned) : e.planned[k] = 1
  IN IF e.exc # "" THEN "creating the rigs failed: " \o e.exc
     ELSE IF e.saved # (IF done THEN <<1, 1>> ELSE <<0, 0>>) THEN "rigs are saved when and only when a round of the calibration succeeds"
     ELSE IF ~done THEN ""
     ELSE IF e.cams # e.wantcams THEN "the rig cameras created"
     ELSE IF ~(Near(e.got[1], e.want[1], 50) /\ Near(e.got[2], e.want[2], 150)) THEN "the poses of the rigs created are not those of the round that succeeds"
     ELSE IF e.assign # e.want_assign THEN "the assignments saved are not those of all images"
     ELSE ""
Store(e) ==
  IF e.exc # "" THEN "storing the rig failed: " \o e.exc
  ELSE IF e.none # <<<<"Cam">>, <<>>>> THEN "rig cameras and assignments of a dataset without rigs"
  ELSE IF e.cams # e.want THEN "the rig cameras loaded"
  ELSE IF e.assign # e.want_assign THEN "the rig assignments loaded"
  ELSE IF e.old # e.want_old THEN "rig assignments stored as a list"
  ELSE ""
Why(e) == CASE e.op = "group" -> Group(e) [] e.op = "calib" -> Calib(e) [] e.op = "subset" -> Subset(e) [] e.op = "whole" -> Whole(e) [] e.op = "store" -> Store(e)
MStep(c, st, e) == LET w == Why(e) IN IF w = "" THEN Ok(st) ELSE No(w)
=============================================================================
