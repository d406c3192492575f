------------------------------ MODULE TrackWalk ------------------------------
(* Sampling a GPS track by distance.  The track is walked unit by unit along  *)
(* a line and a key point is dropped at the first place at distance DX from   *)
(* the last one; the sampler of the code only looks at the points of the      *)
(* track, one segment after another.  Both give the same key points.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS POS, LEN, STEPS
VARIABLES track, dx, i, at, keys, walked
vars == <<track, dx, i, at, keys, walked>>
D(a, b) == IF a < b THEN b - a ELSE a - b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
\* the code: from a to b, while b is out of reach of the last key point
RECURSIVE Segment(_, _, _)
Segment(ks, b, s) == LET last == ks[Len(ks)]
                     IN IF s > 0 /\ D(last, b) >= s THEN Segment(Append(ks, last + s * Sgn(b - last)), b, s) ELSE ks
RECURSIVE Sampled(_, _, _, _)
Sampled(ks, t, n, s) == IF n > Len(t) THEN ks ELSE Sampled(Segment(ks, t[n], s), t, n + 1, s)
Init == /\ track \in UNION {[1..n -> POS] : n \in 2..LEN} /\ dx \in STEPS
        /\ i = 1 /\ at = track[1] /\ keys = <<track[1]>> /\ walked = 0
Walk == /\ i < Len(track) /\ at # track[i + 1]
        /\ at' = at + Sgn(track[i + 1] - at) /\ walked' = walked + 1
        /\ keys' = IF dx > 0 /\ D(keys[Len(keys)], at') >= dx THEN Append(keys, at') ELSE keys
        /\ UNCHANGED <<track, dx, i>>
Reach == i < Len(track) /\ at = track[i + 1] /\ i' = i + 1 /\ UNCHANGED <<track, dx, at, keys, walked>>
Next == Walk \/ Reach
Spec == Init /\ [][Next]_vars
Done == i = Len(track)
Apart == \A k \in 2..Len(keys) : D(keys[k - 1], keys[k]) = dx
Near == dx > 0 => D(keys[Len(keys)], at) < dx
Bounded == dx > 0 => (Len(keys) - 1) * dx <= walked
Agrees == Done => keys = Sampled(<<track[1]>>, track, 2, dx)
Emit == Done => PrintT("@@" \o ToJson([track |-> track, dx |-> dx, keys |-> keys]))
=============================================================================
