----------------------------- MODULE PanoFaces -----------------------------
(* The six square views of a panorama: quarter turns about the vertical axis,  *)
(* and up and down.  Directions in camera axes: x right, y down, z front.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Names == <<"front", "left", "back", "right", "top", "bottom">>
Face == [front |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>,
         left |-> <<<<0, 0, -1>>, <<0, 1, 0>>, <<1, 0, 0>>>>,
         back |-> <<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>>>,
         right |-> <<<<0, 0, 1>>, <<0, 1, 0>>, <<-1, 0, 0>>>>,
         top |-> <<<<1, 0, 0>>, <<0, 0, 1>>, <<0, -1, 0>>>>,
         bottom |-> <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>]
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
In(f, d) == <<Dot(Face[f][1], d), Dot(Face[f][2], d), Dot(Face[f][3], d)>>
Ab(x) == IF x < 0 THEN -x ELSE x
(* a square view of focal 1/2 sees what is nearer to its axis than to the others *)
Sees(f, d) == LET c == In(f, d) IN c[3] > 0 /\ Ab(c[1]) <= c[3] /\ Ab(c[2]) <= c[3]
Inside(f, d) == LET c == In(f, d) IN c[3] > 0 /\ Ab(c[1]) < c[3] /\ Ab(c[2]) < c[3]
VARIABLE d
R == -4..4
Init == d \in {<<x, y, z>> : x \in R, y \in R, z \in R} \ {<<0, 0, 0>>}
Next == FALSE /\ UNCHANGED d
Spec == Init /\ [][Next]_d
FaceSet == {Names[k] : k \in 1..6}
Cover == \E f \in FaceSet : Sees(f, d)
Once == \A f \in FaceSet : Inside(f, d) => \A g \in FaceSet \ {f} : ~Sees(g, d)
Proper == \A f \in FaceSet : LET M == Face[f] IN
            /\ \A i \in 1..3 : \A j \in 1..3 : Dot(M[i], M[j]) = IF i = j THEN 1 ELSE 0
            /\ M[3] = <<M[1][2] * M[2][3] - M[1][3] * M[2][2], M[1][3] * M[2][1] - M[1][1] * M[2][3], M[1][1] * M[2][2] - M[1][2] * M[2][1]>>
(* what is on the right edge of one side view continues on the left edge of another *)
Ring == \A f \in {"front", "left", "back", "right"} : \E g \in {"front", "left", "back", "right"} : Face[g][3] = Face[f][1] /\ Face[g][2] = Face[f][2]
=============================================================================
