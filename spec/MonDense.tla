------------------------------ MODULE MonDense ------------------------------
(* Decides recorded depth maps, cleaned and pruned depth maps and meshes.     *)
(* Cleaning and pruning are decided exactly, in rational numbers: a view is   *)
(* [f, cx, cy, r (signed permutation), t], lengths are scaled by S.           *)
EXTENDS TraceBase
MStart(c) == 0
Px(e) == {<<y, x>> : y \in 0..(e.h - 1), x \in 0..(e.w - 1)}
At(m, y, x) == m[y + 1][x + 1]
(* camera coordinates of the pixel at its depth, times S *)
Cam(e, v, y, x, d) == <<d * (x - v.cx) * (e.S \div v.fx), d * (y - v.cy) * (e.S \div v.fy), e.S * d>>
RT(r, a) == [k \in 1..3 |-> r[1][k] * a[1] + r[2][k] * a[2] + r[3][k] * a[3]]
RM(r, a) == [k \in 1..3 |-> r[k][1] * a[1] + r[k][2] * a[2] + r[k][3] * a[3]]
World(e, v, c) == RT(v.r, [k \in 1..3 |-> c[k] - e.S * v.t[k]])
Into(e, v, w) == LET a == RM(v.r, w) IN [k \in 1..3 |-> a[k] + e.S * v.t[k]]
(* does the view see the surface there: 1 yes, 0 no, 2 too close to call *)
Agrees(e, v, w) ==
  LET c == Into(e, v, w)
      Z == c[3]
      U == v.fx * c[1] + v.cx * Z
      V == v.fy * c[2] + v.cy * Z
  IN IF Z <= 0 THEN 0
     ELSE IF U < 0 \/ V < 0 \/ U > (e.w - 1) * Z \/ V > (e.h - 1) * Z THEN 0
     ELSE IF U = 0 \/ V = 0 \/ U = (e.w - 1) * Z \/ V = (e.h - 1) * Z THEN 2
     ELSE LET x == U \div Z
              y == V \div Z
              a == U % Z
              b == V % Z
              D == ((Z - b) * (((Z - a) * At(v.d, y, x)) + (a * At(v.d, y, x + 1)))) + (b * (((Z - a) * At(v.d, y + 1, x)) + (a * At(v.d, y + 1, x + 1))))
              l == Abs(D * e.S - Z * Z * Z) * e.q
              r == Z * Z * Z * e.p
          IN IF Abs(l - r) <= (r \div 1000) THEN 2 ELSE IF l < r THEN 1 ELSE 0
Clean(e) ==
  LET v1 == e.views[1]
      d(z) == At(v1.d, z[1], z[2])
      ag(z) == LET w == World(e, v1, Cam(e, v1, z[1], z[2], d(z))) IN [k \in 2..Len(e.views) |-> Agrees(e, e.views[k], w)]
      lo(z) == 1 + LET a == ag(z) IN Cardinality({k \in 2..Len(e.views) : a[k] = 1})
      hi(z) == 1 + LET a == ag(z) IN Cardinality({k \in 2..Len(e.views) : a[k] # 0})
      got(z) == At(e.got, z[1], z[2])
  IN IF e.exc # "" THEN "cleaning failed: " \o e.exc
     ELSE IF Len(e.got) # e.h \/ \E k \in 1..e.h : Len(e.got[k]) # e.w THEN "the size of a cleaned depth map"
     ELSE IF \E z \in Px(e) : got(z) # 0 /\ got(z) # d(z) THEN "cleaning changed a depth"
     ELSE IF \E z \in Px(e) : d(z) # 0 /\ got(z) = 0 /\ lo(z) >= e.min THEN "cleaning removed a depth that enough views agree on"
     ELSE IF \E z \in Px(e) : d(z) # 0 /\ got(z) # 0 /\ hi(z) < e.min THEN "cleaning kept a depth that too few views agree on"
     ELSE ""
(* does the view make the point redundant: it sees a surface at least as far, at a finer scale *)
Covers(e, v1, z, v, w) ==
  LET c == Into(e, v, w)
      Z == c[3]
      U == v.fx * c[1] + v.cx * Z
      V == v.fy * c[2] + v.cy * Z
      n1 == At(v1.n, z[1], z[2])
      d1 == At(v1.d, z[1], z[2])
  IN IF Z <= 0 THEN 0
     ELSE LET A == 2 * U + Z
              B == 2 * V + Z
              x == IF A < 0 THEN -1 ELSE A \div (2 * Z)
              y == IF B < 0 THEN -1 ELSE B \div (2 * Z)
              edge == (A < 0 /\ A > -2 * Z) \/ (B < 0 /\ B > -2 * Z) \/ A % (2 * Z) = 0 \/ B % (2 * Z) = 0
          IN IF edge THEN 2
             ELSE IF x < 0 \/ y < 0 \/ x >= e.w \/ y >= e.h THEN 0
             ELSE LET d2 == At(v.d, y, x)
                      n2 == At(v.n, y, x)
                      far == d2 * e.S * e.q - (e.q - e.p) * Z
                      fine == (-n2[3]) * v.fx * d1 * n1[4] - (-n1[3]) * v1.fx * d2 * n2[4]
                  IN IF far < 0 \/ fine < 0 THEN 0 ELSE IF far = 0 \/ fine = 0 THEN 2 ELSE 1
Prune(e) ==
  LET v1 == e.views[1]
      d(z) == At(v1.d, z[1], z[2])
      wd(z) == World(e, v1, Cam(e, v1, z[1], z[2], d(z)))
      cov(z) == LET w == wd(z) IN {Covers(e, v1, z, e.views[k], w) : k \in 2..Len(e.views)}
      out == {<<e.got[k][7], e.got[k][8]>> : k \in 1..Len(e.got)}
      nrm(z) == LET n == At(v1.n, z[1], z[2]) a == RT(v1.r, <<n[1], n[2], n[3]>>) IN [k \in 1..3 |-> (a[k] * 1000) \div n[4]]
      bad(o) == LET z == <<o[7], o[8]>> w == wd(z) n == nrm(z) IN
                IF \E k \in 1..3 : Abs(o[k] * e.S - w[k] * 1000) > 2 * e.S THEN "the position of a point of the depth map"
                ELSE IF \E k \in 1..3 : Abs(o[3 + k] - n[k]) > 2 THEN "the normal of a point of the depth map"
                ELSE IF o[9] # 7 \/ o[10] # At(v1.lab, z[1], z[2]) THEN "the colour or label of a point of the depth map"
                ELSE ""
  IN IF e.exc # "" THEN "pruning failed: " \o e.exc
     ELSE IF Cardinality(out) # Len(e.got) THEN "a pixel gives two points"
     ELSE IF ~(out \subseteq {z \in Px(e) : d(z) > 0}) THEN "a point where there is no depth"
     ELSE IF \E z \in Px(e) : d(z) > 0 /\ z \notin out /\ cov(z) \subseteq {0} THEN "a point was pruned though no view sees it better"
     ELSE IF \E z \in out : 1 \in cov(z) THEN "a redundant point was not pruned"
     ELSE IF \E k \in 1..Len(e.got) : bad(e.got[k]) # "" THEN bad(e.got[CHOOSE k \in 1..Len(e.got) : bad(e.got[k]) # ""])
     ELSE ""
(* estimation: the scene moves by a whole number of pixels between the views  *)
Estim(e) ==
  LET hp == (e.patch - 1) \div 2
      inner(z) == z[1] >= hp /\ z[1] < e.h - hp /\ z[2] >= hp /\ z[2] < e.w - hp
      lay(y) == e.layer[y + 1]
      whole(z) == \A k \in 0..(2 * hp) : lay(z[1] - hp + k) = lay(z[1])
      seen(z, s) == LET u == z[2] - s[lay(z[1])] IN u - hp > 0 /\ u + hp < e.w - 1 /\ z[1] - hp > 0 /\ z[1] + hp < e.h - 1
      near(z, s) == LET u == z[2] - s[lay(z[1])] IN u - hp >= 0 /\ u + hp <= e.w - 1
      whom(z) == {k \in 1..Len(e.shift) : near(z, e.shift[k])}
      who(z) == {k \in 1..Len(e.shift) : seen(z, e.shift[k])}
      tex(z) == z \notin Set(e.flat)
      free(z) == z \notin Set(e.masked)
      must == {z \in Px(e) : inner(z) /\ whole(z) /\ who(z) # {} /\ tex(z) /\ free(z)}
      dep(z) == At(e.depth, z[1], z[2])
      sc(z) == At(e.score, z[1], z[2])
      nb(z) == At(e.nghbr, z[1], z[2])
      true(z) == e.truth[lay(z[1])]
      hit(z) == Abs(dep(z) - true(z)) * 1000 <= true(z) * e.tol
      right == {z \in must : hit(z)}
  IN IF e.exc # "" THEN "estimating depths failed: " \o e.exc
     ELSE IF \E z \in Px(e) : ~inner(z) /\ dep(z) # 0 THEN "a depth at the border"
     ELSE IF e.exact = 0 /\ \E z \in Px(e) : (~free(z) \/ ~tex(z)) /\ dep(z) # 0 THEN "a depth at a masked or flat pixel"
     ELSE IF \E z \in Px(e) : sc(z) > 1001 \/ nb(z) < 0 \/ nb(z) > Len(e.shift) THEN "score or neighbour out of range"
     ELSE IF e.exact = 1 /\ \E z \in Px(e) : dep(z) # 0 /\ (dep(z) * 1000 < e.lo * 999 \/ dep(z) * 999 > e.hi * 1000) THEN "a depth out of the range"
     ELSE IF e.exact = 1 /\ right # must THEN "the depth of a textured pixel"
     ELSE IF e.exact = 1 /\ \E z \in must : sc(z) < 998 \/ nb(z) \notin whom(z) THEN "the score or neighbour of a textured pixel"
     ELSE IF e.exact = 0 /\ Cardinality(must) >= 60 /\ Cardinality(right) * 100 < Cardinality(must) * e.share THEN "the depths are not those of the scene"
     ELSE ""
(* neighbours: the shots with 50 common tracks, more than 20 of them good      *)
(* points, best first                                                         *)
Neigh(e) ==
  LET sc(o) == Cardinality({k \in 1..Len(e.obs) : e.obs[k][1] = o /\ e.obs[k][2] = 1 /\ e.obs[k][3] > 52360 /\ e.obs[k][3] < 523599})
      all(o) == Cardinality({k \in 1..Len(e.obs) : e.obs[k][1] = o})
      ok == {o \in Set(e.others) : sc(o) > 20 /\ all(o) >= 50}
      n == Min2(e.n, Cardinality(ok))
  IN IF e.exc # "" THEN "finding neighbours failed: " \o e.exc
     ELSE IF e.got = <<>> \/ e.got[1] # e.own THEN "a shot is not its own first view"
     ELSE IF ~Distinct(e.got) \/ ~(Set(Tail(e.got)) \subseteq ok) THEN "a neighbour without enough good common points"
     ELSE IF Len(e.got) # n + 1 THEN "the number of neighbours"
     ELSE IF \E a, b \in 2..Len(e.got) : a < b /\ sc(e.got[a]) < sc(e.got[b]) THEN "neighbours are not sorted by their common points"
     ELSE IF \E o \in ok \ Set(e.got) : \E a \in 2..Len(e.got) : sc(o) > sc(e.got[a]) THEN "a better neighbour was left out"
     ELSE ""
(* the value at the fraction f (percent) of the sorted depths *)
Perc(d, f) == LET s == SortSeq(d, <)
                  m == (Len(s) - 1) * f
                  k == m \div 100
                  r == m % 100
              IN IF k + 2 > Len(s) THEN s[Len(s)] ELSE s[k + 1] + (((s[k + 2] - s[k + 1]) * r) \div 100)
DRange(e) ==
  IF e.exc # "" THEN "the depth range failed: " \o e.exc
  ELSE LET lo == IF e.cfg[1] # 0 THEN e.cfg[1] ELSE (Perc(e.d, 10) * 9) \div 10
           hi == IF e.cfg[2] # 0 THEN e.cfg[2] ELSE (Perc(e.d, 90) * 11) \div 10
       IN IF Abs(e.got[1] - lo) > 4 \/ Abs(e.got[2] - hi) > 4 THEN "the depth range of a shot" ELSE ""
(* runs of the whole computation, stopped and resumed *)
Run(e) ==
  IF e.exc # "" THEN "computing the depth maps failed: " \o e.exc
  ELSE IF e.nb # e.wantnb THEN "the neighbours of the shots"
  ELSE IF Set(e.raw) # Set(e.want.raw) THEN "the raw depth maps stored"
  ELSE IF Set(e.clean) # {s \in 1..Len(e.nb) : e.want.clean[s] # <<>>} THEN "the clean depth maps stored"
  ELSE IF Set(e.pru) # {s \in 1..Len(e.nb) : e.want.pru[s] # <<>>} THEN "the pruned depth maps stored"
  ELSE IF \E x \in Set(e.kept) : x # 1 THEN "a depth map that was stored was computed again"
  ELSE IF \E x \in Set(e.sameclean) : x # 1 THEN "a clean depth map is not made of those of its views"
  ELSE IF \E x \in Set(e.samepru) : x # 1 THEN "a pruned depth map is not made of those of its views"
  ELSE IF e.stopped # e.wantstop THEN "the run did not stop where it was stopped"
  ELSE IF e.wantstop = 0 /\ e.merged # 1 THEN "the merged points are not those of the pruned depth maps, in order"
  ELSE IF \E x \in Set(e.truth) : x < 900 THEN "raw depths are not those of the scene"
  ELSE IF \E x \in Set(e.plane) : x < 950 THEN "merged points are not on the surface, in its colours"
  ELSE ""
(* meshes: pixels in ten-thousandths *)
Area2(p, f) == (p[f[2] + 1][1] - p[f[1] + 1][1]) * (p[f[3] + 1][2] - p[f[1] + 1][2]) - (p[f[3] + 1][1] - p[f[1] + 1][1]) * (p[f[2] + 1][2] - p[f[1] + 1][2])
Mesh(e) ==
  LET nv == Len(e.v)
      B == e.base
      F == Set(e.faces)
      vis == {k \in 1..Len(e.pts) : e.pts[k][4] = 1}
      may == {k \in 1..Len(e.pts) : e.pts[k][4] # 0}
      is(k, j) == \A c \in 1..3 : Abs(e.v[j][c] - e.pts[k][c]) <= 1
      dsum(i) == Total([k \in 1..Len(e.faces) |-> IF i \in Set(e.faces[k]) THEN Total([c \in 1..3 |-> IF e.faces[k][c] >= 4 THEN e.z[e.faces[k][c] + 1] ELSE 0]) ELSE 0])
      dnum(i) == Total([k \in 1..Len(e.faces) |-> IF i \in Set(e.faces[k]) THEN Cardinality({c \in 1..3 : e.faces[k][c] >= 4}) ELSE 0])
      depth(i) == IF dnum(i) = 0 THEN 50000 ELSE dsum(i) \div dnum(i)
  IN IF e.exc # "" THEN "making a mesh failed: " \o e.exc
     ELSE IF e.none = 1 THEN (IF nv # 0 \/ F # {} THEN "a mesh of a shot that is not there" ELSE "")
     ELSE IF \E j \in (B + 1)..nv : ~\E k \in may : is(k, j) THEN "a vertex of the mesh is not a point the shot observes"
     ELSE IF \E k \in vis : ~\E j \in (B + 1)..nv : is(k, j) THEN "a point the shot observes is not in its mesh"
     ELSE IF nv - B > Cardinality(may) THEN "a point is twice in the mesh"
     ELSE IF \E f \in F : Len(f) # 3 \/ ~Distinct(f) \/ \E c \in 1..3 : f[c] < 0 \/ f[c] >= nv THEN "a face that is not three vertices"
     ELSE IF e.shape = "flat" /\ Abs(Total([k \in 1..Len(e.faces) |-> Abs(Area2(e.px, e.faces[k]))]) - 2 * e.area) > 4000 * (nv + 20) THEN "the faces do not cover the image once"
     ELSE IF e.shape = "flat" /\ \E i \in 1..4 : Abs(e.z[i] - depth(i - 1)) > 10 + (depth(i - 1) \div 500) THEN "the depth of a corner of the mesh"
     ELSE IF e.shape = "flat" /\ e.corner # 1 THEN "a corner of the mesh is not at a corner of the image"
     ELSE IF e.shape # "flat" /\ e.frame # 1 THEN "the frame of the mesh around the camera"
     ELSE IF e.shape = "round" /\ e.closed # 1 THEN "the mesh around a panorama is not closed"
     ELSE IF e.shape = "fish" /\ \E f \in F : \A c \in 1..3 : f[c] < 20 THEN "a face made of the boundary alone"
     ELSE ""
Why(e) == CASE e.op = "clean" -> Clean(e) [] e.op = "prune" -> Prune(e) [] e.op = "estim" -> Estim(e) [] e.op = "neigh" -> Neigh(e)
          [] e.op = "range" -> DRange(e) [] e.op = "run" -> Run(e) [] e.op = "mesh" -> Mesh(e)
MStep(c, st, e) == LET w == Why(e) IN IF w = "" THEN Ok(st) ELSE No(w)
=============================================================================
