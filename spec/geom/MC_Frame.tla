------------------------------ MODULE MC_Frame ------------------------------
(* Unit vectors with rational components: (a, b, c)/d with a^2+b^2+c^2 = d^2, *)
(* all signs and orders, as arguments for coordinate_system.                  *)
EXTENDS Geometry, TLC, Json
CONSTANT MaxD
VARIABLES v, d
vars == <<v, d>>
QuickD == 15
DeepD == 45
Roots(dd) == {x \in {<<a, b>> : a \in 0..dd, b \in 0..dd} : x[1] >= x[2] /\ x[1] * x[1] + x[2] * x[2] <= dd * dd}
Sq(n) == \E x \in 0..MaxD : x * x = n
Root(n) == CHOOSE x \in 0..MaxD : x * x = n
Init == /\ d \in 1..MaxD
        /\ \E r \in Roots(d) : LET c2 == d * d - r[1] * r[1] - r[2] * r[2] IN
              Sq(c2) /\ Root(c2) <= r[2] /\ v = <<r[1], r[2], Root(c2)>>
Next == UNCHANGED d /\ \/ \E i \in Axes : v' = [v EXCEPT ![i] = -@]
                       \/ v' = <<v[2], v[3], v[1]>>
                       \/ v' = <<v[2], v[1], v[3]>>
Unit == Dot3(v, v) = d * d
Emit == PrintT("CASE " \o ToJson([f |-> "frame", v |-> v, d |-> d]))
=============================================================================
