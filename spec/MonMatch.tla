------------------------------ MODULE MonMatch ------------------------------
(* Judges recorded matching calls.  Indices are 1-based.                     *)
EXTENDS TraceBase
M == INSTANCE Matching WITH Imgs <- {}, Feats <- {}, todo <- 0, refs <- 0, files <- 0, want <- 0
MStart(case) == 0
Sq(a) == a * a
L2(a, b) == Total([k \in 1..Len(a) |-> Sq(a[k] - b[k])])
Ham(a, b) == Sq(Total([k \in 1..Len(a) |-> Abs(a[k] - b[k])]))
Pairs(seq) == {<<p[1], p[2]>> : p \in Set(seq)}
Between(what, must, got, may) ==
  IF ~(must \subseteq got) THEN what \o ": a match is missing"
  ELSE IF ~(got \subseteq may) THEN what \o ": a match that does not qualify" ELSE ""
V(s, why) == IF why = "" THEN Ok(s) ELSE No(why)

Desc(s, e) ==
  LET I == 1..Len(e.f1)
      J == 1..Len(e.f2)
      A == IF Len(e.mask) = 0 THEN I \X J ELSE {p \in I \X J : e.mask[p[1]][p[2]] = 1}
      dist == TLCEval([p \in I \X J |-> IF e.op = "ham" THEN Ham(e.f1[p[1]], e.f2[p[2]]) ELSE L2(e.f1[p[1]], e.f2[p[2]])])
      D(a, b) == dist[<<a, b>>]
      m(strict) == IF e.sym THEN M!BothWays(I, J, A, D, e.r, strict)
                   ELSE M!OneWay(I, J, A, D, e.r, strict)
      (* approximate search may miss a neighbour: only the direction of the   *)
      (* indices and exact twins without rival are certain                    *)
      twin(p) == /\ D(p[1], p[2]) = 0 /\ \A k \in I \ {p[1]} : D(k, p[2]) > 0
                 /\ e.sym => \A k \in J \ {p[2]} : D(p[1], k) > 0
      close(p) == D(p[1], p[2]) = Min({D(k, p[2]) : k \in I}) \/ Cardinality({k \in I : D(k, p[2]) < D(p[1], p[2])}) <= 2
  IN IF e.op = "flann"
     THEN V(s, IF ~Distinct(e.got) THEN "a match is repeated"
               ELSE IF e.sym /\ ~M!Injective(Pairs(e.got)) THEN "symmetric matches are not one to one"
               ELSE Between("approximate matching", {p \in A : twin(p)}, Pairs(e.got), {p \in A : close(p)}))
     ELSE V(s, IF ~Distinct(e.got) THEN "a match is repeated" ELSE Between("matching", m(TRUE), Pairs(e.got), m(FALSE)))

Words(s, e) ==
  LET one(f1, w1, f2, w2, strict) ==
        UNION {M!WordMatch(k, w1[k], LAMBDA w : {j \in 1..Len(f2) : w2[j][1] = w}, LAMBDA a, b : L2(f1[a], f2[b]), e.r, e.checks, strict) : k \in 1..Len(f1)}
      m(strict) == IF e.sym THEN one(e.f1, e.w1, e.f2, e.w2, strict) \cap M!Flip(one(e.f2, e.w2, e.f1, e.w1, strict))
                   ELSE one(e.f1, e.w1, e.f2, e.w2, strict)
  IN V(s, IF ~Distinct(e.got) THEN "a match is repeated" ELSE Between("matching by words", m(TRUE), Pairs(e.got), m(FALSE)))

(* a pair of images with known correspondences: feats = seq of [pid, ok];    *)
(* pid >= 1000 marks look-alikes that contradict the geometry                *)
Truth(e, decoys) ==
  {p \in (1..Len(e.a)) \X (1..Len(e.b)) : /\ e.a[p[1]].pid = e.b[p[2]].pid /\ e.a[p[1]].ok /\ e.b[p[2]].ok
                                          /\ (decoys <=> e.a[p[1]].pid >= 1000)}
PairWhy(e) ==
  LET T == Truth(e, FALSE)
      need == Max2(e.min, 8)
  IN IF e.stage = "descriptors" THEN
        IF Pairs(e.got) = T \cup Truth(e, TRUE) THEN "" ELSE "descriptor matches are not those of the visible features"
     ELSE IF ~(Pairs(e.got) \subseteq T \cup Truth(e, TRUE)) THEN "a match of features that do not correspond, or are masked"
     ELSE IF ~Distinct(e.got) THEN "a match is repeated"
     ELSE IF Len(e.got) > 0 /\ Len(e.got) < e.min THEN "a pair below the minimum number of matches was kept"
     ELSE IF Cardinality(T) >= 20   (* enough for the robust estimation to be conclusive *)
        THEN IF Pairs(e.got) \cap Truth(e, TRUE) # {} THEN "matches that contradict the geometry were kept"
             ELSE IF e.stage # "guided" /\ Cardinality(Pairs(e.got)) < Cardinality(T) - 2 THEN "true correspondences were lost"
             ELSE ""
     ELSE IF Cardinality(T) >= need THEN ""
     ELSE IF Cardinality(T \cup Truth(e, TRUE)) >= need \/ Len(e.got) = 0 THEN "" ELSE "a pair below the minimum number of matches was kept"

(* features seen under the given relative pose: correspondences are allowed  *)
(* by the epipolar mask, look-alikes are not                                 *)
MaskWhy(e) ==
  IF \E x \in 1..Len(e.a), y \in 1..Len(e.b) : e.a[x].pid = e.b[y].pid /\ e.mask[x][y] # (IF e.a[x].pid >= 1000 THEN 0 ELSE 1)
  THEN "the epipolar mask contradicts the poses" ELSE ""

Filters(s, e) ==
  LET p1(m) == e.p1[m[1]]
      p2(m) == e.p2[m[2]]
      all == Pairs(e.ms)
      dd(m) == Sq(p1(m)[1] - p2(m)[1]) + Sq(p1(m)[2] - p2(m)[2])
      moving(strict) == {m \in all : IF strict THEN dd(m) > 100 ELSE dd(m) >= 100}
      removed(strict) == Cardinality(all) - Cardinality(moving(strict))
      static(strict) == IF strict THEN removed(FALSE) * 100 > 85 * Cardinality(all) ELSE removed(TRUE) * 100 >= 85 * Cardinality(all)
      (* neither case on the edge: the driver avoids exact ties *)
      base == IF static(TRUE) THEN all ELSE moving(TRUE)
      inlat(p) == p[2] > -1250 /\ p[2] < 1250
      okp(m) == (~e.pano1 \/ inlat(p1(m))) /\ (~e.pano2 \/ inlat(p2(m)))
      wm(p, make) == (make = "vermont" => p[2] > -2550) /\ (make = "blackvue" => p[2] < 2630)
      keep == {m \in base : okp(m) /\ wm(p1(m), e.make1) /\ wm(p2(m), e.make2)}
  IN V(s, IF Pairs(e.got) = keep THEN "" ELSE "static-feature filters kept or removed the wrong matches")

StoreWhy(e) ==
  LET R == Set(e.refs)
      f == {<<x[1], x[2], Pairs(x[3])>> : x \in Set(e.files)}
      ask == {<<x[1], x[2], Pairs(x[3])>> : x \in Set(e.want)}
      bad == \E x \in ask : x[1] \notin R /\ x[2] \notin R
  IN IF bad THEN (IF e.exc = "" THEN "saving matches between images that are not references must fail" ELSE "")
     ELSE IF e.exc # "" THEN "saving failed: " \o e.exc
     ELSE IF \E x \in f : x[1] \notin R THEN "matches stored with an image that is not a reference"
     ELSE IF Set(e.have) # R THEN "every reference image must get its file"
     ELSE IF Len(e.files) # Len(e.want) THEN "a pair is stored twice or not at all"
     ELSE IF \E x \in ask : M!Read(f, x[1], x[2]) # x[3] THEN "stored matches are not those of the pair"
     ELSE IF {<<x[1], x[2], Pairs(x[3])>> : x \in Set(e.found)} # ask \cup {<<x[2], x[1], M!Flip(x[3])>> : x \in ask}
       THEN "find_matches disagrees with the saved pair"
     ELSE IF {<<x[1], x[2], Pairs(x[3])>> : x \in Set(e.loaded)} # f THEN "load_matches disagrees with the files" ELSE ""

MStep(case, s, e) ==
  IF e.op = "store" THEN V(s, StoreWhy(e))
  ELSE IF e.exc # "" THEN No(e.op \o " failed: " \o e.exc)
  ELSE CASE e.op \in {"bf", "ham", "flann"} -> Desc(s, e)
         [] e.op = "words" -> Words(s, e)
         [] e.op = "pair" -> V(s, PairWhy(e))
         [] e.op = "epimask" -> V(s, MaskWhy(e))
         [] e.op = "filters" -> Filters(s, e)
         [] e.op = "unfilter" -> V(s, IF Pairs(e.got) = M!Unfiltered(Pairs(e.ms), e.m1, e.m2) /\ Len(e.got) = Len(e.ms) THEN "" ELSE "unmasked indices are wrong")
=============================================================================
