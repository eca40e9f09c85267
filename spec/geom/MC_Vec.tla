------------------------------- MODULE MC_Vec -------------------------------
(* Every pair of vectors over a small set of components, and the walk that   *)
(* changes one component at a time.                                          *)
EXTENDS Geometry, TLC, Json
CONSTANT Comps       \* set of integers
VARIABLES a, b, k, c
vars == <<a, b, k, c>>
Few == {-2, 0, 3}
Ks == <<2, -1, 4>>
QuickComps == {-2, -1, 0, 1, 3}
DeepComps == {-7, -2, -1, 0, 1, 3, 5}
Init == a = <<0, 0, 0>> /\ b = <<0, 0, 0>> /\ k = 1 /\ c = 1
Set(v, i, x) == [v EXCEPT ![i] = x]
Next == \E i \in Axes, x \in Comps :
           /\ \/ a' = Set(a, i, x) /\ UNCHANGED b
              \/ b' = Set(b, i, x) /\ UNCHANGED a
           /\ k' = (Ab(Dot3(a', <<1, 2, 3>>)) % 3) + 1
           /\ c' = Ks[k']
Laws == VecLaws(a, b, <<1, -2, 3>>, c)
Emit == PrintT("CASE " \o ToJson([f |-> "vec", a |-> a, b |-> b, k |-> c, e |-> VecResults(a, b, c), ch |-> VecChoices(a, b)]))
=============================================================================
