------------------------------ MODULE MonStats ------------------------------
(* Recomputes the statistics of recorded reconstructions.                     *)
EXTENDS TraceBase
MStart(c) == 0
Near(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Lens(e) == FlattenSeq([k \in 1..Len(e.recs) |-> e.recs[k].lens])
Shots(e) == FlattenSeq([k \in 1..Len(e.recs) |-> e.recs[k].shots])
Count(s, l) == Cardinality({k \in 1..Len(s) : s[k] = l})
\* got is a mean given in millionths of total over n
Mean(got, total, n) == LET w == total \div n
                           f == ((total % n) * 1000) \div n
                       IN Abs((got \div 1000) - (w * 1000 + f)) <= 1
Smallest(s) == Min(Set(s))
Largest(s) == Max(Set(s))
\* values and bins of 30: the number of values of a bin, up to those within 3 units of its ends
Bins(vals, h, b) ==
  /\ Len(h) = 30 /\ Len(b) = 31 /\ Total(h) = Len(vals)
  /\ Cardinality(Set(vals)) > 1 =>
       /\ Abs(b[1] - Smallest(vals)) <= 2 /\ Abs(b[31] - Largest(vals)) <= 2
       /\ \A k \in 1..30 : Abs((b[k + 1] - b[k]) - ((b[31] - b[1]) \div 30)) <= 3
       /\ \A k \in 1..30 : /\ h[k] >= Cardinality({i \in 1..Len(vals) : vals[i] > b[k] + 3 /\ vals[i] < b[k + 1] - 3})
                           /\ h[k] <= Cardinality({i \in 1..Len(vals) : vals[i] >= b[k] - 3 /\ vals[i] <= b[k + 1] + 3})
Recon(e) ==
  LET l == Lens(e)
      kept == SelectSeq(e.errs, LAMBDA x : x[1] <= 4000000)
      col(j) == [k \in 1..Len(kept) |-> kept[k][j]]
      long == SelectSeq(l, LAMBDA x : x > 2)
      gps == Cardinality({k \in 1..Len(Shots(e)) : Shots(e)[k].gps = 1})
      o == e.out
  IN IF e.exc # "" THEN "the statistics of the reconstructions failed: " \o e.exc
     ELSE IF o.components # Len(e.recs) THEN "number of components"
     ELSE IF o.gps # (IF gps > 2 THEN 1 ELSE 0) \/ o.gcp # e.hasgcp THEN "whether there are positions or control points"
     ELSE IF o.shots0 # e.images \/ o.points0 # e.tracks THEN "number of images or tracks before reconstruction"
     ELSE IF o.points # Len(l) \/ o.shots # Len(Shots(e)) THEN "number of points or shots"
     ELSE IF o.obs # Total(l) THEN "number of observations"
     ELSE IF Set(o.hist) # {<<x, Count(l, x)>> : x \in Set(l)} \/ Len(o.hist) # Cardinality(Set(l)) THEN "histogram of the lengths of tracks"
     ELSE IF ~(IF l = <<>> THEN o.len = -1000000 ELSE Mean(o.len, Total(l), Len(l))) THEN "average length of tracks"
     \* shorter tracks than two are out of this average or in it: the code leaves out the shortest ones
     ELSE IF l # <<>> /\ Smallest(l) = 2 /\ ~(IF long = <<>> THEN o.len2 = -1000000 ELSE Mean(o.len2, Total(long), Len(long))) THEN "average length of tracks over two"
     ELSE IF kept = <<>> THEN (IF o.px # -1000000 \/ o.nm # -1000000 \/ o.hpx # <<>> THEN "residuals without observations" ELSE "")
     ELSE IF \E w \in {<<o.px, col(1)>>, <<o.nm, col(2)>>} : Abs(w[1] - (Total(w[2]) \div Len(kept))) > 3 THEN "average residual"
     ELSE IF Abs(o.ang - (Total(col(3)) \div Len(kept))) > 300 THEN "average angle of residuals"
     ELSE IF ~Bins(col(1), o.hpx, o.bpx) \/ ~Bins(col(2), o.hnm, o.bnm) THEN "histogram of the residuals"
     ELSE IF Total(o.hang) # Len(kept) THEN "histogram of the angles"
     ELSE ""
Proc(e) ==
  LET s == Shots(e)
      xs == [k \in 1..Len(s) |-> s[k].xy[1]]
      ys == [k \in 1..Len(s) |-> s[k].xy[2]]
  IN IF e.exc # "" THEN "the statistics of the processing failed: " \o e.exc
     ELSE IF e.times # e.wanttimes THEN "times of the steps"
     ELSE IF Abs(e.total - Total(SelectSeq(e.wanttimes, LAMBDA x : x >= 0))) > 10 THEN "total time"
     ELSE IF (s = <<>> /\ e.area # -64) \/ (s # <<>> /\ e.area # (Largest(xs) - Smallest(xs)) * (Largest(ys) - Smallest(ys))) THEN "area of the reconstructions"
     ELSE IF (e.date = 1) # (e.file = 1) THEN "date of the reconstruction"
     ELSE ""
Median(v) == LET s == SortSeq(v, LAMBDA a, b : a < b) n == Len(v) IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE (s[n \div 2] + s[(n \div 2) + 1]) \div 2
Summary(v) == IF v = <<>> THEN <<-1, -1, -1, -1>> ELSE <<Smallest(v), Largest(v), Total(v) \div Len(v), Median(v)>>
Feat(e) ==
  IF e.exc # "" THEN "the statistics of the features failed: " \o e.exc
  ELSE IF e.det # Summary(e.wantdet) THEN "features detected"
  ELSE IF e.rec # Summary(SelectSeq(e.wantrec, LAMBDA x : x > 0)) THEN "features reconstructed"
  ELSE ""
\* the values of a camera come from the largest reconstruction that has it
Cams(e) ==
  LET has(c) == {k \in 1..Len(e.recs) : \E x \in Set(e.recs[k].cams) : x[1] = c}
      best(c) == {k \in has(c) : \A j \in has(c) : e.recs[j].size <= e.recs[k].size}
      val(k, c) == CHOOSE x \in Set(e.recs[k].cams) : x[1] = c
      want == {x[1] : x \in {y \in Set(e.initial) : has(y[1]) # {}}}
  IN IF e.exc # "" THEN "the statistics of the cameras failed: " \o e.exc
     ELSE IF {x[1] : x \in Set(e.got)} # want \/ Len(e.got) # Cardinality(want) THEN e.what \o ": those of the reconstructions"
     ELSE IF \E x \in Set(e.got) : \E i \in Set(e.initial) : i[1] = x[1] /\ i[2] # x[2] THEN e.what \o ": initial values"
     ELSE IF \E x \in Set(e.got) : \A k \in best(x[1]) : val(k, x[1])[2] # x[3] \/ val(k, x[1])[3] # x[4] THEN e.what \o ": optimized values are not of the largest reconstruction"
     ELSE ""
\* errors in thousandths, with their norms
Errors(e) ==
  LET n == Len(e.errs)
      col(j) == [k \in 1..n |-> e.errs[k][j]]
      sq(j) == Total([k \in 1..n |-> e.errs[k][j] * e.errs[k][j]])
  IN IF e.exc # "" THEN "the statistics of the " \o e.what \o " failed: " \o e.exc
     ELSE IF n = 0 THEN (IF e.got # <<>> THEN e.what \o ": there are none" ELSE "")
     ELSE IF e.got = <<>> THEN e.what \o ": none given"
     ELSE IF \E j \in 1..3 : Abs(e.got[1][j] * n - Total(col(j))) > 3 * n THEN e.what \o ": mean error"
     ELSE IF \E j \in 1..3 : Abs(e.got[3][j] * e.got[3][j] * n - sq(j)) > n * (6 * e.got[3][j] + 60) THEN e.what \o ": root mean squared error"
     ELSE IF \E j \in 1..3 : Abs(e.got[2][j] * e.got[2][j] - (e.got[3][j] * e.got[3][j] - e.got[1][j] * e.got[1][j])) > 6 * (e.got[2][j] + e.got[3][j] + Abs(e.got[1][j])) + 60 THEN e.what \o ": standard deviation"
     ELSE IF Abs(e.got[4] * n - Total(col(4))) > 3 * n THEN e.what \o ": average error"
     ELSE ""
Files(e) ==
  IF e.exc # "" THEN "computing the statistics failed: " \o e.exc
  ELSE IF ~(Set(e.want) \subseteq Set(e.files)) THEN "a file of the statistics is missing"
  ELSE IF e.same # 1 THEN "the statistics stored are not those computed"
  ELSE IF e.maxpts >= 0 /\ \E x \in Set(e.decimated) : x[2] # Min2(x[1], e.maxpts) \/ x[3] # 1 THEN "decimated points"
  ELSE ""
Why(e) == CASE e.op = "recon" -> Recon(e) [] e.op = "proc" -> Proc(e) [] e.op = "feat" -> Feat(e) [] e.op = "cams" -> Cams(e) [] e.op = "errors" -> Errors(e) [] e.op = "files" -> Files(e)
MStep(c, st, e) == LET w == Why(e) IN IF w = "" THEN Ok(st) ELSE No(w)
=============================================================================
