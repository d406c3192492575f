------------------------------- MODULE MonSub -------------------------------
(* Decides recorded splits of a dataset into submodels and alignments of the  *)
(* submodels' reconstructions.                                                *)
EXTENDS TraceBase
MStart(c) == 0
gps_seq(e) == SelectSeq([i \in 1..Len(e.gps) |-> i], LAMBDA i : e.gps[i] = 1)
Sorted(s) == SetToSortSeq(Set(s), <)
Split(e) ==
  LET n == Len(e.gps)
      gps == {i \in 1..n : e.gps[i] = 1}
      lab(i) == e.label[i]
      used == {lab(i) : i \in gps}
      K == Len(e.sub)
      grouped == Len(e.group) > 0
      rank(g) == Cardinality({e.group[i] : i \in {j \in gps : e.group[j] < g}})
      d(i, j) == e.dist[i][j]
      must(k) == {j \in gps : lab(j) = k - 1 \/ \E i \in gps : lab(i) = k - 1 /\ d(i, j) <= e.over - e.tol}
      may(k) == {j \in gps : lab(j) = k - 1 \/ \E i \in gps : lab(i) = k - 1 /\ d(i, j) <= e.over + e.tol}
  IN IF e.exc # "" THEN "splitting the dataset failed: " \o e.exc
     ELSE IF ~Distinct(e.listed) \/ Sorted(e.listed) # gps_seq(e) THEN "the images with GPS listed"
     ELSE IF {i \in 1..n : lab(i) >= 0} # gps THEN "the images of the clusters are not those with GPS"
     ELSE IF grouped /\ \E i \in gps : lab(i) # rank(e.group[i]) THEN "an image is not in the cluster of its group"
     ELSE IF ~grouped /\ K # (Cardinality(gps) + e.size - 1) \div e.size THEN "number of clusters"
     ELSE IF ~grouped /\ e.blob # <<>> /\ \E i, j \in gps : (e.blob[i] = e.blob[j]) # (lab(i) = lab(j)) THEN "the clusters are not the separated groups of images"
     ELSE IF used # 0..(K - 1) THEN "the number of submodels"
     ELSE IF \E k \in 1..K : ~Distinct(e.sub[k]) THEN "an image is twice in a submodel"
     ELSE IF \E k \in 1..K : ~({i \in gps : lab(i) = k - 1} \subseteq Set(e.sub[k])) THEN "a submodel lacks an image of its cluster"
     ELSE IF \E k \in 1..K : ~(must(k) \subseteq Set(e.sub[k])) THEN "a submodel lacks an image within the overlap"
     ELSE IF \E k \in 1..K : ~(Set(e.sub[k]) \subseteq may(k)) THEN "a submodel has an image out of the overlap"
     ELSE IF e.saved # e.sub THEN "the clusters stored are not the submodels"
     ELSE IF e.geo # e.sub THEN "the map of the submodels"
     ELSE IF e.geo0 # [i \in 1..Len(gps_seq(e)) |-> lab(gps_seq(e)[i])] THEN "the map of the clusters"
     ELSE IF e.geoxy # 1 THEN "a position in the maps"
     ELSE IF e.paths # K \/ e.dirs # K THEN "submodels of another run are left"
     ELSE IF e.opened # e.sub THEN "the images of an opened submodel"
     ELSE IF e.folder # [k \in 1..K |-> Sorted(e.sub[k])] THEN "the files in the images folder of a submodel"
     ELSE IF e.same # <<>> THEN "a submodel does not see the data of the dataset: " \o e.same[1]
     ELSE ""
Near(a, b, tol) == \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Align(e) ==
  IF e.exc # "" THEN "aligning the submodels failed: " \o e.exc
  ELSE IF Set(e.keys) # Set(e.want) THEN "the reconstructions that are aligned"
  ELSE IF \E x \in Set(e.shots) : ~Near(x[2], x[3], e.tol) THEN "position of an aligned shot"
  ELSE IF \E x \in Set(e.shots) : ~Near(x[4], x[5], e.rtol) THEN "orientation of an aligned shot"
  ELSE IF \E x \in Set(e.points) : ~Near(x[2], x[3], e.ptol) THEN "position of an aligned point"
  ELSE IF e.untouched # 1 THEN "the reconstruction of the submodel was overwritten"
  ELSE ""
Agree(e) ==
  IF e.exc # "" THEN "aligning the submodels failed: " \o e.exc
  ELSE IF \E x \in Set(e.gap) : x[2] > e.tol THEN "an image that two submodels share has two positions"
  ELSE IF \E x \in Set(e.gps) : x[2] > e.gtol THEN "an aligned submodel is far from its GPS"
  ELSE ""
Apply(e) ==
  IF e.exc # "" THEN "applying the transformations failed: " \o e.exc
  ELSE IF \E x \in Set(e.err) : x[2] > 5 THEN "a transformed reconstruction: " \o (CHOOSE x \in Set(e.err) : x[2] > 5)[1]
  ELSE IF e.untouched # 1 THEN "the reconstruction of the submodel was overwritten"
  ELSE ""
Graph(e) ==
  IF e.exc # "" THEN "finding the connected reconstructions failed: " \o e.exc
  ELSE LET m == Len(e.shots)
           want == {{a, b} : a, b \in 1..m} \ {{a} : a \in 1..m}
           hit == {p \in want : \A a, b \in p : Set(e.shots[a]) \cap Set(e.shots[b]) # {}}
       IN IF {Set(p) : p \in Set(e.edges)} # hit \/ Len(e.edges) # Cardinality(hit) THEN "the connected reconstructions" ELSE ""
Inv(e) == IF e.exc # "" THEN "inverting failed: " \o e.exc ELSE IF \E v \in Set(e.err) : v > 5 THEN "the inverse of a similarity" ELSE ""
Scale(e) == IF e.exc # "" THEN "the scale matrix failed: " \o e.exc ELSE IF e.err > 20 THEN "the scale matrix does not whiten the covariance" ELSE ""
Common(e) ==
  LET want == {<<a, b>> \in (Set(e.p1) \X Set(e.p2)) :
        \E x \in Set(e.o1), y \in Set(e.o2) : x[1] = y[1] /\ x[1] \in Set(e.s1) \cap Set(e.s2) /\ x[2] = a /\ y[2] = b /\ x[3] = y[3]}
  IN IF e.exc # "" THEN "the common tracks failed: " \o e.exc
     ELSE IF {<<x[1], x[2]>> : x \in Set(e.got)} # want THEN "the tracks that two reconstructions share"
     ELSE IF Len(e.got) # Cardinality(want) THEN "a common track is listed twice"
     ELSE ""
Resect(e) ==
  IF e.exc # "" THEN "resecting the reconstruction failed: " \o e.exc
  ELSE IF e.n <= 6 /\ e.ok = 1 THEN "a similarity from too few points"
  ELSE IF e.n <= 6 THEN ""
  ELSE IF e.good < 7 THEN ""
  ELSE IF e.ok # 1 THEN "the similarity was not found"
  ELSE IF {<<x[1], x[2]>> : x \in Set(e.inl)} # {<<x[1], x[2]>> : x \in Set(e.want)} THEN "the inliers of the similarity"
  ELSE IF e.err > 50 THEN "the similarity between two reconstructions"
  ELSE ""
Why(e) == CASE e.op = "split" -> Split(e) [] e.op = "align" -> Align(e) [] e.op = "agree" -> Agree(e) [] e.op = "apply" -> Apply(e) [] e.op = "graph" -> Graph(e)
          [] e.op = "inv" -> Inv(e) [] e.op = "scale" -> Scale(e) [] e.op = "common" -> Common(e) [] e.op = "resect" -> Resect(e)
MStep(c, st, e) == LET w == Why(e) IN IF w = "" THEN Ok(st) ELSE No(w)
=============================================================================
