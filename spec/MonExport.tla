------------------------------ MODULE MonExport ------------------------------
(* Decides recorded exports.  An event holds the reconstructions and what a   *)
(* reader of the format found in the files: images, projections of points     *)
(* (thousandths of a pixel, from the centre), points and views.               *)
EXTENDS TraceBase
MStart(c) == 0
Near(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Want(e) == {o \in Set(e.obs) : o[3] \in Set(e.recs[o[1]]) /\ o[3] \in Set(e.only) /\ o[2] \in Set(e.points[o[1]])}
Key(o) == <<o[1], o[2], o[3], o[4]>>
\* points that the format keeps
Kept(e) == IF e.fmt = "nvm" THEN {<<o[1], o[2]>> : o \in {x \in Want(e) : Cardinality({y \in Want(e) : y[1] = x[1] /\ y[2] = x[2]}) > 1}}
           ELSE IF e.fmt = "mvs" THEN {<<o[1], o[2]>> : o \in Want(e)}
           ELSE UNION {{<<r, t>> : t \in Set(e.points[r])} : r \in 1..Len(e.recs)}
Views(e) == {o \in Want(e) : <<o[1], o[2]>> \in Kept(e)}
Imgs(e) == UNION {Set(e.recs[r]) : r \in 1..Len(e.recs)} \cap Set(e.only)
ViewOk(e, v, o) == Key(v) = Key(o) /\ (e.xy = 0 \/ Near(<<v[5], v[6]>>, <<o[5], o[6]>>, e.xytol))
Why(e) ==
  IF e.exc # "" THEN e.fmt \o ": the export failed: " \o e.exc
  ELSE IF e.bad # <<>> THEN e.fmt \o ": " \o e.bad[1]
  ELSE IF ~Distinct(e.imgs) \/ Set(e.imgs) # Imgs(e) THEN e.fmt \o ": the images in the file"
  ELSE IF \E x \in Set(e.proj) : ~Near(x[2], x[3], e.ptol) THEN e.fmt \o ": a point projected with the camera and pose in the file"
  ELSE IF {x[1] : x \in Set(e.proj)} # (IF e.noproj = 1 THEN {} ELSE Imgs(e)) THEN e.fmt \o ": the images with a camera in the file"
  ELSE IF e.pts = 0 THEN ""
  ELSE IF ~Distinct([k \in 1..Len(e.got) |-> <<e.got[k][1], e.got[k][2]>>]) \/ {<<x[1], x[2]>> : x \in Set(e.got)} # Kept(e) THEN e.fmt \o ": the points in the file"
  ELSE IF \E x \in Set(e.got) : ~Near(x[3], x[4], 20) THEN e.fmt \o ": the position of a point"
  ELSE IF \E x \in Set(e.got) : x[5] # x[6] THEN e.fmt \o ": the colour of a point"
  ELSE IF e.views = 0 THEN ""
  ELSE IF Len(e.seen) # Cardinality(Views(e)) THEN e.fmt \o ": the number of views of the points"
  ELSE IF \E v \in Set(e.seen) : ~(\E o \in Views(e) : ViewOk(e, v, o)) THEN e.fmt \o ": a view of a point"
  ELSE IF \E o \in Views(e) : ~(\E v \in Set(e.seen) : Key(v) = Key(o)) THEN e.fmt \o ": a view of a point is missing"
  ELSE IF \E x \in Set(e.back) : x[1] # x[2] THEN e.fmt \o ": the points of an image do not agree with the images of the points"
  ELSE ""
Ply(e) ==
  IF e.exc # "" THEN "ply: the export failed: " \o e.exc
  ELSE IF e.bad # <<>> THEN "ply: " \o e.bad[1]
  ELSE IF e.count # Len(e.rows) THEN "ply: the number of vertices"
  ELSE IF \E r \in Set(e.rows) : Len(r) # e.props THEN "ply: the properties of a vertex"
  ELSE IF Len(e.rows) # Len(e.want) THEN "ply: a vertex is missing or added"
  ELSE IF \E r \in 1..Len(e.rows) : ~Near(SubSeq(e.rows[r], 1, Len(e.want[r])), e.want[r], e.tol) THEN "ply: a vertex"
  ELSE ""
Db(e) ==
  IF e.exc # "" THEN "colmap: the export failed: " \o e.exc
  ELSE IF Set(e.images) # Set(e.wimages) \/ Len(e.images) # Len(e.wimages) THEN "colmap: the images of the database"
  ELSE IF e.cams # e.wcams THEN "colmap: the cameras of the database"
  ELSE IF e.keys # e.wkeys THEN "colmap: the keypoints of the database"
  ELSE IF {x[1] : x \in Set(e.pairs)} # Set(e.wpairs) \/ Len(e.pairs) # Len(e.wpairs) THEN "colmap: the matched pairs of the database"
  ELSE IF \E x \in Set(e.pairs) : x[2] # 1 THEN "colmap: the matches of a pair are not between its images"
  ELSE ""
Judge(e) == CASE e.op = "export" -> Why(e) [] e.op = "ply" -> Ply(e) [] e.op = "db" -> Db(e)
MStep(c, st, e) == LET w == Judge(e) IN IF w = "" THEN Ok(st) ELSE No(w)
=============================================================================
