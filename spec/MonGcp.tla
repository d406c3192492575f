------------------------------- MODULE MonGcp -------------------------------
(* Decides every recorded operation on the control points of the annotation   *)
(* tool from the state it keeps itself, and the analysis of annotations.      *)
EXTENDS TraceBase
MStart(c) == [pts |-> <<>>, given |-> {}, disk |-> <<>>, rep |-> <<>>]
Near(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Ids(p) == {p[i][1] : i \in 1..Len(p)}
At(p, id) == CHOOSE i \in 1..Len(p) : p[i][1] = id
\* a point: <<name, <<>> or position, observations>>; an observation: <<image, coordinates, precision>>
\* a position: latitude, longitude, deviation, time, altitude, vertical deviation, each <<>> or <<value>>
Geo(g) == IF g = <<>> THEN <<>> ELSE [g EXCEPT ![3] = IF @ = <<>> THEN <<100000000>> ELSE @]
Loaded(f) == [i \in 1..Len(f) |-> <<f[i][1], Geo(f[i][2]), [k \in 1..Len(f[i][3]) |-> LET o == f[i][3][k] IN IF Len(o[2]) = 2 /\ o[3] = <<>> THEN <<o[1], o[2], <<4000>>>> ELSE o]>>]
\* what the pipeline reads of the saved points: the positions and the projections
Lla(g) == IF g = <<>> THEN <<>> ELSE IF g[5] = <<>> THEN <<g[1][1], g[2][1]>> ELSE <<g[1][1], g[2][1], g[5][1]>>
Flat(p) == [i \in 1..Len(p) |-> <<p[i][1], Lla(p[i][2]), [k \in 1..Len(p[i][3]) |-> <<p[i][3][k][1], IF Len(p[i][3][k][2]) = 2 THEN p[i][3][k][2] ELSE <<>>>>]>>]
Visible(p, s) == LET hits(x) == SelectSeq(x[3], LAMBDA o : o[1] = s)
                     on == SelectSeq(p, LAMBDA x : hits(x) # <<>>)
                 IN [i \in 1..Len(on) |-> LET o == hits(on[i])[Len(hits(on[i]))] IN <<on[i][1], o[2], o[3]>>]
Errs(r) == {r[2][k][2] : k \in 1..Len(r[2])}
Known(st) == {r \in Set(st.rep) : r[1] \in Ids(st.pts) /\ \E x \in Errs(r) : x > 0}
Worst(st, got) ==
  IF Known(st) = {} THEN got = "none"
  ELSE \E r \in Known(st) : r[1] = got /\ \A s \in Known(st) : \A x \in Errs(s) : \E y \in Errs(r) : y >= x
Next(st, e) ==
  CASE e.op = "disk" -> [st EXCEPT !.disk = e.file]
    [] e.op = "add" -> [st EXCEPT !.pts = Append(@, <<e.res, <<>>, <<>>>>), !.given = @ \cup {e.res}]
    [] e.op = "rem" -> [st EXCEPT !.pts = SelectSeq(@, LAMBDA p : p[1] # e.id)]
    [] e.op = "obs" -> [st EXCEPT !.pts = [i \in 1..Len(@) |-> IF @[i][1] # e.id THEN @[i] ELSE <<e.id, IF e.geo = <<>> THEN @[i][2] ELSE Geo(e.geo), Append(@[i][3], e.obs)>>]]
    [] e.op = "unobs" -> [st EXCEPT !.pts = [i \in 1..Len(@) |-> IF @[i][1] # e.id THEN @[i] ELSE <<e.id, IF e.geo = 1 THEN <<>> ELSE @[i][2], SelectSeq(@[i][3], LAMBDA o : o[1] # e.shot)>>],
                                    !.rep = [i \in 1..Len(@) |-> IF @[i][1] # e.id THEN @[i] ELSE <<e.id, [k \in 1..Len(@[i][2]) |-> IF @[i][2][k][1] = e.shot THEN <<e.shot, 0>> ELSE @[i][2][k]]>>]]
    [] e.op = "save" -> [st EXCEPT !.disk = st.pts]
    [] e.op = "load" -> [st EXCEPT !.pts = Loaded(st.disk)]
    [] e.op = "rep" -> [st EXCEPT !.rep = e.rep]
    [] OTHER -> st
Book(st, e) ==
  LET n == Next(st, e)
  IN IF e.exc # "" THEN "an operation failed: " \o e.exc
     ELSE IF e.op = "add" /\ (e.res \in Ids(st.pts) \/ e.res \in st.given) THEN "a new control point gets a name in use"
     ELSE IF e.op = "look" /\ e.vis # Visible(st.pts, e.shot) THEN "the points visible in an image"
     ELSE IF e.op = "look" /\ e.has # [i \in 1..Len(st.pts) |-> IF \E o \in Set(st.pts[i][3]) : o[1] = e.shot THEN 1 ELSE 0] THEN "whether a point is annotated in an image"
     ELSE IF e.op = "worst" /\ ~Worst(st, e.res) THEN "the control point with the largest error"
     ELSE IF e.op = "most" /\ ~(LET r == CHOOSE x \in Set(st.rep) : x[1] = e.id
                                    on == {x \in Set(r[2]) : x[1] \in Set(e.shots)}
                                IN IF on = {} THEN e.res = "none" ELSE \E x \in on : x[1] = e.res /\ \A y \in on : y[2] <= x[2]) THEN "the image in which a control point has the largest error"
     ELSE IF e.op = "save" /\ e.read # Flat(st.pts) THEN "the pipeline does not read the control points saved"
     ELSE IF e.post # n.pts THEN "control points after " \o e.op
     ELSE ""
Norm2(v) == v[1] * v[1] + v[2] * v[2]
Reproj(e) ==
  IF e.exc # "" THEN "the analysis of annotations failed: " \o e.exc
  ELSE IF \E g \in Set(e.gcps) : g.seen < 2 /\ g.rep # <<>> THEN "a control point seen by fewer than two cameras is reprojected"
  ELSE IF \E g \in Set(e.gcps) : g.exact = 1 /\ g.seen >= 2 /\ [k \in 1..Len(g.rep) |-> g.rep[k][1]] # g.shots THEN "the images a control point is reprojected in"
  ELSE IF \E g \in Set(e.gcps) : g.exact = 1 /\ \E x \in Set(g.rep) : x[2] > 20 \/ ~Near(x[3], g.lla, 50) THEN "an exact annotation has an error or another position"
  ELSE IF \E g \in Set(e.gcps) : \E x \in Set(g.rep) : Abs(x[2] - x[4]) > 3 THEN "the reprojection error of an annotation"
  ELSE IF \E g \in Set(e.gcps) : g.exact = 1 /\ g.seen >= 2 /\ ~(Near(g.geo, g.off, 2000)) THEN "the distance between a control point and its position"
  ELSE IF \E g \in Set(e.gcps) : (g.seen < 2 \/ g.haslla = 0) /\ g.geo # <<>> THEN "a distance for a point without position"
  ELSE IF \E k \in 2..Len(e.sorted) : e.sorted[k - 1] < e.sorted[k] THEN "errors are not sorted"
  ELSE IF Len(e.sorted) # Total([k \in 1..Len(e.gcps) |-> Len(e.gcps[k].rep)]) THEN "an error is lost"
  ELSE IF \E k \in 1..Len(e.gcps) : e.wrong[k] # Cardinality({j \in 1..Len(e.gcps[k].rep) : e.gcps[k].rep[j][2] > e.thr}) THEN "number of wrong annotations"
  ELSE ""
Merge(e) ==
  IF e.exc # "" THEN "merging or splitting reconstructions failed: " \o e.exc
  ELSE IF Set(e.shots) # UNION {Set(r.shots) : r \in Set(e.recs)} \/ ~Distinct(e.shots) THEN "the shots of the merged reconstruction"
  ELSE IF Len(e.points) # Total([k \in 1..Len(e.recs) |-> Len(e.recs[k].points)]) \/ Set(e.points) # UNION {Set(r.points) : r \in Set(e.recs)} THEN "the points of the merged reconstruction"
  ELSE IF e.back # e.recs THEN "splitting does not give the reconstructions back"
  ELSE ""
Align(e) ==
  IF e.exc # "" THEN "aligning control points failed: " \o e.exc
  ELSE IF ~(Near(e.got, e.want, 50)) THEN "the similarity between two sets of control points"
  ELSE ""
Resect(e) ==
  IF e.exc # "" THEN "resecting annotated images failed: " \o e.exc
  ELSE IF Set(e.got) # Set(e.want) THEN "the images resected"
  ELSE IF \E x \in Set(e.poses) : x[2] > 10100 \/ x[3] # "c1" THEN "the pose of a resected image"
  ELSE IF e.base # e.base2 THEN "resecting changes the base reconstruction"
  ELSE ""
MStep(c, st, e) ==
  IF c.kind = "book" THEN LET w == Book(st, e) IN IF w = "" THEN Ok(Next(st, e)) ELSE No(w)
  ELSE LET w == CASE e.op = "reproj" -> Reproj(e) [] e.op = "merge" -> Merge(e) [] e.op = "align" -> Align(e) [] e.op = "resect" -> Resect(e)
       IN IF w = "" THEN Ok(st) ELSE No(w)
=============================================================================
