------------------------------ MODULE MC_BoxNew ------------------------------
(* A box built from every pair of points, in any order.                      *)
EXTENDS Geometry, TLC, Json
CONSTANT G
VARIABLES p, q
vars == <<p, q>>
Grid == 0..G
QuickG == 2
DeepG == 3
Init == p = <<0, 0, 0>> /\ q = <<0, 0, 0>>
Set(v, i, x) == [v EXCEPT ![i] = x]
Next == \E i \in Axes, x \in Grid : (p' = Set(p, i, x) /\ q' = q) \/ (q' = Set(q, i, x) /\ p' = p)
Ok == LET h == Hull({p, q}) IN h = Box(Min3(p, q), Max3(p, q)) /\ ~Empty(h) /\ In(h, p) /\ In(h, q)
Emit == PrintT("CASE " \o ToJson([f |-> "boxnew", p |-> p, q |-> q, G |-> G, e |-> Hull({p, q})]))
=============================================================================
