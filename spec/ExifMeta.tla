------------------------------ MODULE ExifMeta ------------------------------
(* What the tags of an image mean, in integer arithmetic: angles in units of   *)
(* 1/3600000 degree, altitudes in mm, times as seconds since 1970 and          *)
(* microseconds, rotations in fixed point.                                     *)
EXTENDS FixedPoint
VARIABLE d
(* days since 1970-01-01 of a date of the Gregorian calendar *)
Days(y, m, dd) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - (era * 400)
      mp == (m + 9) % 12
      doy == (((153 * mp) + 2) \div 5) + dd - 1
      doe == (yoe * 365) + (yoe \div 4) - (yoe \div 100) + doy
  IN (era * 146097) + doe - 719468
Epoch(t) == (Days(t[1], t[2], t[3]) * 86400) + (t[4] * 3600) + (t[5] * 60) + t[6]
(* n/d in multiples of 1/k *)
Scaled(r, k) == IF k % r[2] = 0 THEN r[1] * (k \div r[2]) ELSE (r[1] * k) \div r[2]
Valid(a) == \A i \in 1..Len(a) : a[i][2] # 0
Angle(a, ref) == (IF ref \in {"N", "E"} THEN 1 ELSE -1) * (Scaled(a[1], 3600000) + Scaled(a[2], 60000) + Scaled(a[3], 1000))
(* rotations: rows of a 3x3 fixed-point matrix *)
Dot(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> FMul(A[i][1], B[1][j]) + FMul(A[i][2], B[2][j]) + FMul(A[i][3], B[3][j])]]
RX(a) == <<<<E6, 0, 0>>, <<0, FCos(a), -FSin(a)>>, <<0, FSin(a), FCos(a)>>>>
RY(a) == <<<<FCos(a), 0, FSin(a)>>, <<0, E6, 0>>, <<-FSin(a), 0, FCos(a)>>>>
RZ(a) == <<<<FCos(a), -FSin(a), 0>>, <<FSin(a), FCos(a), 0>>, <<0, 0, E6>>>>
(* the axes of a camera with image right, image top and backwards, in the frame east, north, up *)
OfOpk(o) == Dot(RX(o[1]), Dot(RY(o[2]), RZ(o[3])))
Swap == <<<<0, E6, 0>>, <<E6, 0, 0>>, <<0, 0, -E6>>>>
OfYpr(a) == Dot(Swap, Dot(Dot(RZ(a[1]), Dot(RY(a[2]), RX(a[3]))), Swap))
(* laws checked by TLC: the calendar, and the meaning of the angles *)
Init == d \in 0..30000
Next == FALSE /\ UNCHANGED d
Spec == Init /\ [][Next]_d
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Calendar == LET y == 1970 + (d \div 366)
                m == 1 + (d % 12)
            IN /\ Days(1970, 1, 1) = 0 /\ Days(2000, 3, 1) = 11017
               /\ (IF m = 12 THEN Days(y + 1, 1, 1) ELSE Days(y, m + 1, 1)) = Days(y, m, 1) + MonthLen(y, m)
Near(A, B, tol) == \A i \in 1..3 : \A j \in 1..3 : FAbs(A[i][j] - B[i][j]) <= tol
Conventions == LET a == 10472 * (d % 300) - 1570796
               IN d < 300 => /\ Near(OfYpr(<<0, 0, 0>>), OfOpk(<<0, 0, 0>>), 3)
                             \* yaw a: the top of the image points a east of north
                             /\ Near(OfYpr(<<a, 0, 0>>), OfOpk(<<0, 0, -a>>), 30)
                             \* pitch: from nadir towards the horizon ahead
                             /\ Near(OfYpr(<<0, a, 0>>), OfOpk(<<a, 0, 0>>), 30)
=============================================================================
