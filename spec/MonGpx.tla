------------------------------- MODULE MonGpx -------------------------------
(* Decides positions taken from GPS tracks: millionths of a degree and whole  *)
(* seconds for interpolation, milliseconds and hundred-millionths of a degree *)
(* from the first point for sampling.                                         *)
EXTENDS TraceBase, FixedPoint
MStart(c) == 0
Unknown == 2000000000
\* difference of two longitudes along the shortest arc
Arc(d) == IF d > 180000000 THEN d - 360000000 ELSE IF d <= -180000000 THEN d + 360000000 ELSE d
Rad(x) == FMul(x, 17453) + (((x \div 1000) * 293) \div 1000000)
Turn(d) == IF d > PI THEN d - 2 * PI ELSE IF d < -PI THEN d + 2 * PI ELSE d
Part(a, b, n, d) == a + (((b - a) * n) \div d)
\* the segment of time t: the last point not after it and the next one
Before(p, t) == CHOOSE k \in 1..(Len(p) - 1) : p[k][1] <= t /\ t < p[k + 1][1]
Inside(p, t) == p[1][1] <= t /\ t < p[Len(p)][1]
Lat(p, t) == LET k == Before(p, t) IN Part(p[k][2], p[k + 1][2], t - p[k][1], p[k + 1][1] - p[k][1])
\* how far the longitude lon is from that of time t
LonOff(p, t, lon) == LET k == Before(p, t)
                         w == p[k][3] + ((Arc(p[k + 1][3] - p[k][3]) * (t - p[k][1])) \div (p[k + 1][1] - p[k][1]))
                     IN Abs(Arc(Arc(lon - w)))
Ele(p, t) == LET k == Before(p, t) IN IF p[k][4] = Unknown \/ p[k + 1][4] = Unknown THEN Unknown ELSE Part(p[k][4], p[k + 1][4], t - p[k][1], p[k + 1][1] - p[k][1])
\* direction (radians) from a to b
Short(a, b) == Abs(b[2] - a[2]) <= 20000 /\ Abs(Arc(b[3] - a[3])) <= 20000
Heading(a, b) ==
  LET dl == Arc(b[3] - a[3])
  IN IF Short(a, b)
     THEN FAtan2(1000 * FMul(dl, FCos(Rad((a[2] + b[2]) \div 2))), 1000 * (b[2] - a[2]))
     ELSE FAtan2(FMul(FSin(Rad(dl)), FCos(Rad(b[2]))), FMul(FCos(Rad(a[2])), FSin(Rad(b[2]))) - FMul(FMul(FSin(Rad(a[2])), FCos(Rad(b[2]))), FCos(Rad(dl))))
HeadingOk(p, t, deg) == LET k == Before(p, t) a == p[k] b == p[k + 1]
                        IN \/ Abs(b[2] - a[2]) + Abs(Arc(b[3] - a[3])) < 200     \* nearly at rest
                           \/ Abs(Turn(Turn(Rad(deg) - Heading(a, b)))) <= IF Short(a, b) THEN 4000 + (200000 \div (Abs(b[2] - a[2]) + Abs(Arc(b[3] - a[3])))) ELSE 15000
Interp(e) ==
  LET p == e.pts t == e.t
  IN IF ~Inside(p, t) THEN (IF e.exc # "ValueError" THEN "a time out of the track has a position: " \o e.exc ELSE "")
     ELSE IF e.exc # "" THEN "the position of a time failed: " \o e.exc
     ELSE IF Abs(e.got[1] - Lat(p, t)) > 2 THEN "latitude"
     ELSE IF Abs(e.got[2]) > 180000000 \/ LonOff(p, t, e.got[2]) > 2 THEN "longitude"
     ELSE IF e.got[3] < 0 \/ e.got[3] > 360000000 THEN "bearing out of range"
     ELSE IF ~HeadingOk(p, t, e.got[3]) THEN "bearing"
     ELSE IF (e.got[4] = Unknown) # (Ele(p, t) = Unknown) THEN "whether there is an elevation"
     ELSE IF Ele(p, t) # Unknown /\ Abs(e.got[4] - Ele(p, t)) > 2 THEN "elevation"
     ELSE ""
\* degrees, minutes and millionths of a second, and their half of the world
Angle(d, minus, plus) == LET v == d.d * 1000000 + ((d.m * 1000000) \div 60) + (d.s \div 3600)
                         IN IF d.ref = minus THEN -v ELSE v
Sexa(d, minus, plus) == d.d >= 0 /\ d.m \in 0..59 /\ d.s >= 0 /\ d.s <= 60000000 /\ d.ref \in {minus, plus, ""} /\ (d.ref = "" => d.d = 0 /\ d.m = 0 /\ d.s = 0)
\* lat, lon, ele and bearing are decided by the caller
Written(w) == IF ~Sexa(w.lat, "S", "N") \/ ~Sexa(w.lon, "W", "E") THEN "degrees, minutes and seconds out of range" ELSE ""
Height(w) == IF w.ele = Unknown THEN Unknown ELSE IF w.below = "1" THEN -w.ele ELSE w.ele
Tag(e) ==
  LET p == e.pts t == e.t - e.offset w == e.w
  IN IF e.exc # "" THEN "tagging an image failed: " \o e.exc
     ELSE IF ~Inside(p, t) THEN (IF e.writes # 0 THEN "an image out of the track was tagged" ELSE "")
     ELSE IF e.writes # 1 THEN "the tags were not written"
     ELSE IF Written(w) # "" THEN Written(w)
     ELSE IF Abs(Angle(w.lat, "S", "N") - Lat(p, t)) > 4 THEN "latitude written"
     ELSE IF LonOff(p, t, Angle(w.lon, "W", "E")) > 4 THEN "longitude written"
     ELSE IF ~HeadingOk(p, t, w.bearing) THEN "bearing written"
     ELSE IF w.north # "T" THEN "reference of the bearing"
     ELSE IF (w.ele = Unknown) # (Ele(p, t) = Unknown) THEN "whether an elevation is written"
     ELSE IF w.ele # Unknown /\ (Abs(Height(w) - Ele(p, t)) > 1010 \/ w.below \notin {"0", "1"}) THEN "elevation written"
     ELSE IF w.orientation # e.orientation THEN "orientation written"
     ELSE IF w.time # e.t THEN "capture time written"
     ELSE IF w.text # e.text THEN "description written"
     ELSE ""
\* given positions: the image itself or its copy
Given(e) ==
  LET w == e.w
  IN IF e.exc # "" THEN "writing positions failed: " \o e.exc
     ELSE IF e.writes # 1 \/ e.file # e.wantfile THEN "the positions went to another file"
     ELSE IF e.intact # 1 THEN "the original image changed or the copy is not of it"
     ELSE IF Written(w) # "" THEN Written(w)
     ELSE IF Abs(Angle(w.lat, "S", "N") - e.lla[1]) > e.tol THEN "latitude written"
     ELSE IF Abs(Arc(Angle(w.lon, "W", "E") - e.lla[2])) > e.tol THEN "longitude written"
     ELSE IF Abs(Turn(Turn(Rad(w.bearing) - Rad(e.bearing)))) > 400 THEN "bearing written"
     ELSE IF w.north # "T" THEN "reference of the bearing"
     ELSE IF (w.ele = Unknown) # (e.lla[3] = Unknown) THEN "whether an elevation is written"
     ELSE IF w.ele # Unknown /\ Abs(Height(w) - e.lla[3]) > 1200 THEN "elevation written"
     ELSE IF w.text # e.text THEN "description of the image"
     ELSE ""
(* sampling: points are <<ms, lat, lon, elevation>> from the first point *)
Place(p, t) == LET k == IF t >= p[Len(p)][1] THEN Len(p) - 1 ELSE Before(p, t)
                   a == FDiv(t - p[k][1], p[k + 1][1] - p[k][1])
               IN [x |-> <<p[k][2] + FMul(p[k + 1][2] - p[k][2], a), p[k][3] + FMul(p[k + 1][3] - p[k][3], a)>>,
                   h |-> IF p[k][4] = Unknown \/ p[k + 1][4] = Unknown THEN Unknown ELSE p[k][4] + FMul(p[k + 1][4] - p[k][4], a)]
\* millimetres of a hundred-millionth of a degree along and across the meridian
W(lat) == LET u == FSin(lat) IN FSqrt(E6 - FMul(6694, FMul(u, u)))
North(lat) == FMul(FDiv(FMul(6378137, 993306), FMul(W(lat), FMul(W(lat), W(lat)))), 174533)
East(lat) == FMul(FMul(FDiv(6378137, W(lat)), 174533), FCos(lat))
Apart(e, a, b) == Hyp(FMul(b[2] - a[2], North(e.lat)), FMul(b[3] - a[3], East(e.lat)))
OnTrack(e, s) == LET w == Place(e.pts, s[1]) IN Abs(w.x[1] - s[2]) <= 30 /\ Abs(w.x[2] - s[3]) <= (FDiv(30, FCos(e.lat)))
Level(e, s) == LET w == Place(e.pts, s[1])
                   at == {k \in 1..Len(e.pts) : Abs(e.pts[k][1] - s[1]) <= 1}
               IN \/ at # {}     \* on a point of the track, of either segment
                  \/ ((w.h = Unknown) = (s[4] = Unknown) /\ (w.h # Unknown => Abs(w.h - s[4]) <= 60))
Sample(e) ==
  LET s == e.got n == Len(e.got) p == e.pts
      last == p[Len(p)][1]
  IN IF e.exc # "" THEN "sampling a track failed: " \o e.exc
     ELSE IF n = 0 \/ s[1] # p[1] THEN "the first key point is not that of the track"
     ELSE IF e.step = 0 THEN (IF n # 1 THEN "key points without a step" ELSE "")
     ELSE IF \E k \in 2..n : s[k][1] < s[k - 1][1] \/ s[k][1] > last + 1 THEN "key points are not in the order of the track"
     ELSE IF \E k \in 1..n : ~OnTrack(e, s[k]) THEN "a key point is off the track at its time"
     ELSE IF \E k \in 2..n : ~Level(e, s[k]) THEN "elevation of a key point"
     ELSE IF e.by = "time"
          THEN IF \E k \in 2..n : Abs(s[k][1] - s[1][1] - (k - 1) * e.step) > 2 THEN "key points are not apart by the step of time"
               ELSE IF last - s[n][1] > e.step + 2 THEN "the end of the track has no key points"
               ELSE ""
     ELSE IF \E k \in 2..n : Abs(Apart(e, s[k - 1], s[k]) - e.step) > e.near THEN "key points are not apart by the step"
     ELSE IF \E k \in 1..n : \E j \in 1..Len(p) : p[j][1] > s[k][1] + 1 /\ (k = n \/ p[j][1] < s[k + 1][1] - 1) /\ Apart(e, s[k], p[j]) > e.step + e.near
          THEN "a place of the track beyond the step was skipped"
     ELSE ""
\* points of a file, in the order of their times
Read(e) ==
  IF e.exc # "" THEN "reading a track failed: " \o e.exc
  ELSE IF \E k \in 2..Len(e.got) : e.got[k][1] < e.got[k - 1][1] THEN "points are not in the order of time"
  ELSE IF Len(e.got) # Len(e.want) THEN "number of points read"
  ELSE IF Set([k \in 1..Len(e.got) |-> Tail(e.got[k])]) # Set([k \in 1..Len(e.want) |-> Tail(e.want[k])]) THEN "positions read"
  ELSE IF \E k \in 1..Len(e.want) : ~\E j \in 1..Len(e.got) : Tail(e.got[j]) = Tail(e.want[k]) /\ Abs(e.got[j][1] - e.want[k][1] - e.zone) <= 60 THEN "time of a point"
  ELSE ""
\* frames of the video at the key points after its start; those within milliseconds of its start or end may be left out
Video(e) ==
  LET near(f) == {k \in 1..Len(e.keys) : Abs(e.keys[k][1] - e.files[f].name) <= 2}
      must == {k \in 1..Len(e.keys) : e.keys[k][1] > e.start + 5 /\ e.keys[k][1] < e.last - 5 /\ e.keys[k][1] - e.start < e.length - 5}
      n == Len(e.files)
  IN IF e.exc # "" THEN "importing a video failed: " \o e.exc
     ELSE IF \/ \E f \in 1..n : near(f) = {} \/ e.files[f].name < e.start - 5 \/ (f > 1 /\ e.files[f].name <= e.files[f - 1].name)
             \/ \E k \in must : \A f \in 1..n : k \notin near(f) THEN "the frames imported are not those of the key points"
     ELSE IF \E f \in 1..n : Abs(e.files[f].frame - (e.files[f].name - e.start)) > 3 THEN "a frame is not that of the time of its key point"
     ELSE IF \E f \in 1..n : Abs(e.files[f].tag - e.files[f].name) > 1 /\ ~(e.files[f].tag = -1 /\ e.files[f].name >= e.last - 5) THEN "a frame is tagged or named with another time"
     ELSE IF \E f \in 1..n : e.files[f].tag # -1 /\ e.files[f].orientation # e.orientation THEN "a frame is tagged with another orientation"
     ELSE ""
Turned(e) ==
  LET w == CASE e.rot = "" -> 1 [] e.rot = "0" -> 1 [] e.rot = "90" -> 6 [] e.rot = "180" -> 3 [] e.rot = "270" -> 8 [] OTHER -> 0
  IN IF w = 0 THEN (IF e.exc = "" THEN "an unknown rotation has an orientation" ELSE "")
     ELSE IF e.exc # "" \/ e.got # w THEN "orientation of a video" ELSE ""
Why(e) == CASE e.op = "interp" -> Interp(e) [] e.op = "tag" -> Tag(e) [] e.op = "given" -> Given(e) [] e.op = "sample" -> Sample(e)
            [] e.op = "read" -> Read(e) [] e.op = "video" -> Video(e) [] e.op = "turned" -> Turned(e)
MStep(c, st, e) == LET w == Why(e) IN IF w = "" THEN Ok(st) ELSE No(w)
=============================================================================
