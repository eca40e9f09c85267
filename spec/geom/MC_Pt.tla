------------------------------- MODULE MC_Pt -------------------------------
(* Interpolation, floor and ceiling of points on a grid of quarters.         *)
EXTENDS Geometry, TLC, Json
CONSTANT Comps
VARIABLES p, q, t
vars == <<p, q, t>>
QuickComps == {-9, -4, -1, 0, 3, 6}
DeepComps == {-9, -8, -5, -4, -3, -1, 0, 1, 2, 4, 6, 7}
Ts == {-4, -1, 0, 1, 2, 3, 4, 6, 8}
Init == p = <<0, 0, 0>> /\ q = <<1, 2, -3>> /\ t \in Ts
Set(v, i, x) == [v EXCEPT ![i] = x]
Next == /\ \E i \in Axes, x \in Comps :
              \/ p' = Set(p, i, x) /\ UNCHANGED q
              \/ q' = Set(q, i, Mn(x, 3) + i) /\ p' = p /\ i = 1
        /\ UNCHANGED t
Laws == LET r == PtResults(p, q, t) IN
        /\ t = 0 => r.lerp = Scale3(p, 4)
        /\ t = 4 => r.lerp = Scale3(q, 4)
        /\ Add3(r.lerp, PtResults(p, q, 4 - t).lerp) = Scale3(Add3(p, q), 4)      \* symmetric
        /\ \A i \in Axes : /\ 4 * r.floor[i] <= p[i] /\ p[i] < 4 * r.floor[i] + 4
                           /\ 4 * r.ceil[i] >= p[i] /\ p[i] > 4 * r.ceil[i] - 4
Emit == PrintT("CASE " \o ToJson([f |-> "pt", p |-> p, q |-> q, t |-> t, e |-> PtResults(p, q, t)]))
=============================================================================
