------------------------------ MODULE GeoFrame ------------------------------
(* The WGS84 ellipsoid and its local frames in fixed point: lengths in         *)
(* megametres or metres, angles in radians or microradians (all times 1e6).    *)
EXTENDS FixedPoint
VARIABLE k
A == 6378137
E2 == 6694
OneE2 == 993306
Sq(x) == FMul(x, x)
W(lat) == FSqrt(E6 - FMul(E2, Sq(FSin(lat))))
Prime(lat) == FDiv(A, W(lat))                              \* radius across the meridian
Merid(lat) == FDiv(FDiv(FMul(A, OneE2), Sq(W(lat))), W(lat))   \* radius along it
(* east, north and up (metres) of a point dlat, dlon (microradians) and dalt from the origin, up to third order *)
East(lat, h, dlat, dlon) == FMul(Prime(lat) + h, FMul(FCos(lat) - FMul(FSin(lat), dlat \div 1000000), dlon))
Km(x) == x \div 1000
North(lat, h, dlat, dlon) ==
  FMul(Merid(lat) + h, dlat) + (LET e == Km(East(lat, h, dlat, dlon)) IN FDiv(FMul(FMul(e, e), FDiv(FSin(lat), FCos(lat))), 2 * Prime(lat)))
Up(lat, h, dlat, dlon, dalt) ==
  LET e == Km(East(lat, h, dlat, dlon))
      n == Km(FMul(Merid(lat) + h, dlat))
  IN dalt - (FDiv(FMul(e, e), 2 * Prime(lat)) + FDiv(FMul(n, n), 2 * Merid(lat)))
(* earth-centred coordinates in megametres *)
Ecef(lat, lon, h) == LET p == FMul(Prime(lat) + h, FCos(lat))
                     IN <<FMul(p, FCos(lon)), FMul(p, FSin(lon)), FMul(FMul(Prime(lat), OneE2) + h, FSin(lat))>>
Axes(lat, lon) == LET sa == FSin(lat) ca == FCos(lat) so == FSin(lon) co == FCos(lon)
                  IN <<<<-so, -FMul(sa, co), FMul(ca, co)>>, <<co, -FMul(sa, so), FMul(ca, so)>>, <<0, ca, sa>>>>
(* laws: the ellipsoid equation, orthonormal axes, frames consistent with positions *)
Init == k \in 0..400
Next == FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_k
Lat == (k % 20) * 157079 - 1492250
Lon == (k \div 20) * 314159 - 3100000
OnEllipsoid == LET p == Ecef(Lat, Lon, 0)
               IN FAbs(Sq(FDiv(p[1], A)) + Sq(FDiv(p[2], A)) + Sq(FDiv(p[3], 6356752)) - E6) <= 12
Ortho == LET a == Axes(Lat, Lon)
         IN \A i \in 1..3 : \A j \in 1..3 : FAbs(FMul(a[1][i], a[1][j]) + FMul(a[2][i], a[2][j]) + FMul(a[3][i], a[3][j]) - (IF i = j THEN E6 ELSE 0)) <= 8
Radii == Merid(Lat) <= Prime(Lat) + 3 /\ Prime(0) = A
=============================================================================
