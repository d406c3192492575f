------------------------------ MODULE MonStore ------------------------------
(* Recorded accesses to a real dataset folder against Store.tla, plus the    *)
(* rules for image lists, mask lists, subsets, references and match files.   *)
(* A store event names its key e.k ("kind/name"); values are digests.        *)
EXTENDS TraceBase
S == INSTANCE Store WITH Kinds <- {}, Names <- {}, Values <- {}, MaxLen <- 0, None <- "", disk <- 0, hist <- <<>>

MStart(case) == [d \in {} |-> ""]
Get(st, k) == IF k \in DOMAIN st THEN st[k] ELSE ""
Put(st, k, v) == [x \in DOMAIN st \cup {k} |-> IF x = k THEN v ELSE st[x]]
Chk(c, w, st) == IF c THEN Ok(st) ELSE No(w)

Exts == {"jpg", "jpeg", "png", "tif", "tiff", "pgm", "pnm", "gif"}
ListedImages(files) == {f.n : f \in {g \in Set(files) : g.ext \in Exts}}

(* weighted mean: |got * W - sum| <= W *)
Weight(p) == CHOOSE w \in Set(p.w) : TRUE
MeanOk(pts, got) ==
  LET W == Total([i \in 1..Len(pts) |-> pts[i].w])
      A == Total([i \in 1..Len(pts) |-> pts[i].w * pts[i].lat])
      B == Total([i \in 1..Len(pts) |-> pts[i].w * pts[i].lon])
  IN IF W = 0 THEN got.lat = 0 /\ got.lon = 0
     ELSE Abs(got.lat * W - A) <= W /\ Abs(got.lon * W - B) <= W

MStep(case, st, e) ==
  CASE e.op = "save" ->
         IF e.exc # "" THEN No("saving " \o e.kind \o " failed: " \o e.exc)
         ELSE IF e.after # e.v THEN No("saving " \o e.kind \o " changed the saved object")
         ELSE Ok(Put(st, e.k, e.v))
    [] e.op = "append" ->
         IF e.exc # "" THEN No("appending to " \o e.kind \o " failed") ELSE Ok(Put(st, e.k, Get(st, e.k) \o e.v))
    [] e.op = "load" ->
         IF Get(st, e.k) = ""
         THEN IF e.absent = "raise" THEN Chk(e.exc # "", "loading an absent " \o e.kind \o " returned something", st)
              ELSE Chk(e.exc = "" /\ e.got = e.absent, "loading an absent " \o e.kind \o " did not give the default", st)
         ELSE IF e.exc # "" THEN No("loading a stored " \o e.kind \o " failed: " \o e.exc)
         ELSE Chk(e.got = Get(st, e.k), e.kind \o " loaded differs from what was saved last", st)
    [] e.op = "has" -> Chk(e.exc = "" /\ e.got = (Get(st, e.k) # ""), "wrong answer to whether " \o e.kind \o " exists", st)
    [] e.op = "reopen" -> Chk(e.exc = "", "the dataset cannot be opened: " \o e.exc, st)
    [] e.op = "same" -> Chk(e.exc = "" /\ e.got = e.want, e.what, st)
    [] e.op = "imagedir" ->
         IF e.exc # "" /\ ListedImages(e.files) # {} THEN No("opening failed: " \o e.exc)
         ELSE IF ListedImages(e.files) = {} THEN Chk(e.exc # "", "a dataset without images opens", st)
         ELSE IF ~Distinct(e.images) \/ Set(e.images) # ListedImages(e.files) THEN No("images() is not the set of image files in images/")
         ELSE Chk(\A r \in Set(e.read) : r.got = r.want, "an image does not read the pixels of its own file", st)
    [] e.op = "imagelist" ->
         IF e.exc # "" THEN No("opening failed: " \o e.exc)
         ELSE IF e.images # e.lines THEN No("images() differs from image_list.txt")
         ELSE Chk(\A r \in Set(e.read) : r.got = r.want, "an image does not read the listed file", st)
    [] e.op = "masks" ->
         (* e.rows: [n, has, got, want]; has: a mask is listed for image n *)
         IF e.exc # "" THEN No("opening failed: " \o e.exc)
         ELSE IF \E r \in Set(e.rows) : (~r.has) /\ r.got # "none" THEN No("an image without mask got one")
         ELSE Chk(\A r \in Set(e.rows) : r.has => r.got = r.want, "an image did not get its own mask", st)
    [] e.op = "subset" ->
         IF e.exc # "" THEN No("subset failed: " \o e.exc)
         ELSE IF Set(e.images) # Set(e.asked) \/ Len(e.images) # Cardinality(Set(e.asked)) THEN No("a subset does not have exactly the requested images")
         ELSE IF \E r \in Set(e.rows) : r.got # r.want THEN No("a subset differs from its dataset: " \o (CHOOSE r \in Set(e.rows) : r.got # r.want).what)
         ELSE Chk(e.before = e.after, "making a subset changed the original data", st)
    [] e.op = "reference" ->
         IF e.exc # "" THEN No("inventing the reference failed: " \o e.exc)
         ELSE IF e.got.alt # 0 THEN No("the invented reference has an altitude")
         ELSE Chk(MeanOk(e.pts, e.got), "the invented reference is not the weighted mean of the positions", st)
    [] e.op = "evil" ->
         IF e.effect THEN No("loading a match file ran code stored in it")
         ELSE Chk(e.exc # "", "a match file naming a foreign class was accepted", st)
    [] e.op = "version" ->
         IF e.exc # "" THEN No("an older features file cannot be read: " \o e.exc)
         ELSE Chk(e.got = e.want, "an older features file was misread", st)
=============================================================================
