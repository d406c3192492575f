------------------------------ MODULE RigGroup ------------------------------
(* Images named by sequences of tokens; a pattern is one token.  An image     *)
(* belongs to the first pattern whose removal changes its name and leaves     *)
(* something: the rest names its instance.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Tokens, MAXLEN, PatLists
VARIABLES imgs, pats, inst, single, k
vars == <<imgs, pats, inst, single, k>>
Names == UNION {[1..n -> Tokens] : n \in 1..MAXLEN}
Drop(im, t) == SelectSeq(im, LAMBDA x : x # t)
Fits(im, p) == {j \in 1..Len(p) : Drop(im, p[j]) # im /\ Drop(im, p[j]) # <<>>}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Rig(im, p) == IF Fits(im, p) = {} THEN 0 ELSE First(Fits(im, p))
Key(im, p) == Drop(im, p[Rig(im, p)])
Init == /\ pats \in PatLists /\ \E a, b \in Names : a # b /\ imgs = <<a, b>> /\ inst = <<>> /\ single = <<>> /\ k = 1
Place(im) ==
  IF Rig(im, pats) = 0 THEN /\ single' = Append(single, k) /\ inst' = inst
  ELSE LET key == Key(im, pats) at == {j \in 1..Len(inst) : inst[j].key = key} IN
       /\ single' = single
       /\ inst' = IF at = {} THEN Append(inst, [key |-> key, members |-> <<<<k, Rig(im, pats)>>>>])
                  ELSE [inst EXCEPT ![First(at)].members = Append(@, <<k, Rig(im, pats)>>)]
Next == k <= Len(imgs) /\ Place(imgs[k]) /\ k' = k + 1 /\ UNCHANGED <<imgs, pats>>
Spec == Init /\ [][Next]_vars
Once == \A i \in 1..(k - 1) : Cardinality({<<j, m>> \in (1..Len(inst)) \X (1..Len(imgs)) : m <= Len(inst[j].members) /\ inst[j].members[m][1] = i}) + Cardinality({m \in 1..Len(single) : single[m] = i}) = 1
SameKey == \A j \in 1..Len(inst) : \A m \in 1..Len(inst[j].members) : Drop(imgs[inst[j].members[m][1]], pats[inst[j].members[m][2]]) = inst[j].key
Keys == \A i, j \in 1..Len(inst) : inst[i].key = inst[j].key => i = j
Emit == k = Len(imgs) + 1 => PrintT("@@" \o ToJson([imgs |-> imgs, pats |-> pats]))
P1 == {<<"l", "r">>, <<"r", "l">>, <<"l">>, <<"l", "r", "a">>}
=============================================================================
