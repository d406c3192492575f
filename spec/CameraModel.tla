----------------------------- MODULE CameraModel ----------------------------
(* The ten camera models: projection, then distortion, then affine map.       *)
(* Numbers are in fixed point (FixedPoint); P is the record of parameters.    *)
EXTENDS FixedPoint, FiniteSets, TLC
Types == {"perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial", "dual", "spherical"}
Base == {"focal"}
Full == {"focal", "aspect_ratio", "cx", "cy"}
K(n) == {<<"k1", "k2", "k3", "k4", "k5", "k6">>[i] : i \in 1..n}
Names(t) == CASE t \in {"perspective", "fisheye"} -> Base \cup K(2)
              [] t = "dual" -> Base \cup K(2) \cup {"transition"}
              [] t = "brown" -> Full \cup K(3) \cup {"p1", "p2"}
              [] t = "fisheye_opencv" -> Full \cup K(4)
              [] t = "fisheye62" -> Full \cup K(6) \cup {"p1", "p2"}
              [] t = "fisheye624" -> Full \cup K(6) \cup {"p1", "p2", "s0", "s1", "s2", "s3"}
              [] t = "radial" -> Full \cup K(2)
              [] t = "simple_radial" -> Full \cup K(1)
              [] t = "spherical" -> {"none"}
Persp(x, y, z) == <<FDiv(x, z), FDiv(y, z)>>
Fish(x, y, z) == LET r == Hyp(x, y)
                     th == FAtan2(r, z)
                 IN IF r = 0 THEN <<0, 0>> ELSE <<FMul(th, FDiv(x, r)), FMul(th, FDiv(y, r))>>
TwoPI == 2 * PI
Sphere(x, y, z) == <<FDiv(FAtan2(x, z), TwoPI), FDiv(FAtan2(y, Hyp(x, z)), TwoPI)>>
Proj(t, P, x, y, z) ==
  CASE t \in {"perspective", "brown", "radial", "simple_radial"} -> Persp(x, y, z)
    [] t = "spherical" -> Sphere(x, y, z)
    [] t = "dual" -> LET a == Persp(x, y, z)
                         b == Fish(x, y, z)
                     IN <<FMul(P.transition, a[1]) + FMul(E6 - P.transition, b[1]), FMul(P.transition, a[2]) + FMul(E6 - P.transition, b[2])>>
    [] OTHER -> Fish(x, y, z)
(* 1 + k1 r^2 + k2 r^4 + ... ; parameters a model lacks are 0 *)
Radial(P, u) == E6 + FMul(u, P.k1 + FMul(u, P.k2 + FMul(u, P.k3 + FMul(u, P.k4 + FMul(u, P.k5 + FMul(u, P.k6))))))
Dist(P, p) ==
  LET x == p[1]
      y == p[2]
      u == FMul(x, x) + FMul(y, y)
      rad == Radial(P, u)
      tx == FMul(2 * P.p1, FMul(x, y)) + FMul(P.p2, u + 2 * FMul(x, x))
      ty == FMul(2 * P.p2, FMul(x, y)) + FMul(P.p1, u + 2 * FMul(y, y))
      sx == FMul(u, P.s0 + FMul(u, P.s1))
      sy == FMul(u, P.s2 + FMul(u, P.s3))
  IN <<FMul(x, rad) + tx + sx, FMul(y, rad) + ty + sy>>
Affine(P, p) == <<FMul(P.focal, p[1]) + P.cx, FMul(FMul(P.focal, P.aspect_ratio), p[2]) + P.cy>>
Project(t, P, x, y, z) == IF t = "spherical" THEN Sphere(x, y, z) ELSE Affine(P, Dist(P, Proj(t, P, x, y, z)))
KMat(P) == <<P.focal, 0, P.cx, 0, FMul(P.focal, P.aspect_ratio), P.cy, 0, 0, E6>>

(* ---- design check: the laws that make bearings well defined ---- *)
VARIABLE st
Zero == [focal |-> E6, aspect_ratio |-> E6, cx |-> 0, cy |-> 0, transition |-> 500000, k1 |-> 0, k2 |-> 0, k3 |-> 0, k4 |-> 0,
         k5 |-> 0, k6 |-> 0, p1 |-> 0, p2 |-> 0, s0 |-> 0, s1 |-> 0, s2 |-> 0, s3 |-> 0]
Angles == {100000 * i : i \in 1..14}
Init == st \in [t : Types, a : Angles, k1 : {-50000, 0, 50000}, k2 : {-10000, 0, 10000}, d : {<<1, 0>>, <<0, 1>>, <<-1, 0>>}]
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
Pm == [Zero EXCEPT !.k1 = st.k1, !.k2 = st.k2]
At(a) == <<st.d[1] * FSin(a), st.d[2] * FSin(a), FCos(a)>>
Radius(t, v) == LET p == Project(t, Pm, v[1], v[2], v[3]) IN FMax(FAbs(p[1]), FAbs(p[2]))
Near(a, b, tol) == FAbs(a - b) <= tol
(* trigonometry of the fixed point module is consistent *)
Trig == /\ Near(FAtan2(FSin(st.a), FCos(st.a)), st.a, 8)
        /\ Near(FMul(FSin(st.a), FSin(st.a)) + FMul(FCos(st.a), FCos(st.a)), E6, 8)
        /\ Near(Hyp(3 * st.a, 4 * st.a), 5 * st.a, 8)
        /\ Near(FSqrt(FMul(st.a, st.a)), st.a, 4)
(* the image radius grows with the angle to the axis, so that each pixel has one bearing *)
Grows == (st.a <= 1000000 \/ st.t \in {"spherical"}) => Radius(st.t, At(st.a)) < Radius(st.t, At(st.a + 50000))
(* only the direction of a point matters *)
RayOnly == LET v == At(st.a)
               p == Project(st.t, Pm, v[1], v[2], v[3])
               w == Project(st.t, Pm, 3 * v[1], 3 * v[2], 3 * v[3])
           IN FAbs(v[3]) > 300000 => (Near(p[1], w[1], 60) /\ Near(p[2], w[2], 60))
=============================================================================
