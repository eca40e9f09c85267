------------------------------ MODULE MC_Apply ------------------------------
(***************************************************************************)
(* Vectors under a transform that is composed step by step.  Only the       *)
(* upper left 3x3 part of a matrix acts on vectors.                         *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json
CONSTANT Depth
VARIABLES m, n
vars == <<m, n>>
QuickDepth == 2
DeepDepth == 3
Unit(r, c) == M4(LAMBDA i, j : IF i = r /\ j = c THEN 1 ELSE 0)
Sh(r, c, k) == M4(LAMBDA i, j : IF i = j THEN 1 ELSE IF i = r /\ j = c THEN k ELSE 0)
Tr == <<<<1, 0, 0, 5>>, <<0, 1, 0, -6>>, <<0, 0, 1, 7>>, <<0, 0, 0, 1>>>>
Sc == <<<<2, 0, 0, 0>>, <<0, -3, 0, 0>>, <<0, 0, 4, 0>>, <<0, 0, 0, 1>>>>
Rx == <<<<1, 0, 0, 0>>, <<0, 0, -1, 0>>, <<0, 1, 0, 0>>, <<0, 0, 0, 1>>>>
Rz == <<<<0, -1, 0, 0>>, <<1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>>>
D1 == <<<<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<9, -1, -2, -3>>, <<-4, -5, -6, -7>>>>
D2 == <<<<2, -3, 5, 11>>, <<7, 13, -17, -9>>, <<-1, 4, 6, 3>>, <<0, 0, 0, 1>>>>
Affines == {Ident, Tr, Sc, Rx, Rz, D2, Sh(1, 2, 3), Sh(2, 3, -2), Sh(3, 1, 1), Sh(1, 3, -1), Sh(2, 1, 5), Sh(3, 2, 4)}
Gens == Affines \union {D1, Zero4} \union {Unit(r, c) : r \in I4, c \in I4} \union {Sh(4, j, 3) : j \in Axes}
Affine(a) == a[4] = <<0, 0, 0, 1>>
Lin(a, v) == V(LAMBDA i : a[i][1] * v[1] + a[i][2] * v[2] + a[i][3] * v[3])
Vs == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<2, -3, 5>>, <<-1, 4, 0>>, <<0, 0, 0>>, <<7, 7, -7>>>>
Few == <<Sc, Rx, Sh(1, 2, 3), Tr, D2>>
Init == m \in Gens /\ n = 0
Next == n < Depth /\ MaxAbs(m) <= 60 /\ n' = n + 1 /\ \E g \in Affines : m' = MMul(g, m)
View == m
Laws == \A i \in 1..Len(Vs) : LET v == Vs[i] IN
        /\ \A j \in 1..Len(Vs) : Lin(m, Add3(v, Vs[j])) = Add3(Lin(m, v), Lin(m, Vs[j]))
        /\ Lin(m, Scale3(v, -3)) = Scale3(Lin(m, v), -3)
        /\ \A k \in 1..Len(Few) : Affine(m) => Lin(MMul(Few[k], m), v) = Lin(Few[k], Lin(m, v))
        /\ Lin([m EXCEPT ![1][4] = 9, ![2][4] = -8, ![4] = <<1, 2, 3, 4>>], v) = Lin(m, v)
        /\ Affine(m) => Lin(Adj(m), Lin(m, v)) = Scale3(v, Det(m))
Emit == PrintT("CASE " \o ToJson([f |-> "apply", m |-> m, aff |-> Affine(m), det |-> IF Affine(m) THEN Det(m) ELSE 0, adj |-> IF Affine(m) THEN Adj(m) ELSE Zero4,
            im |-> [i \in 1..Len(Vs) |-> <<Vs[i], Lin(m, Vs[i])>>],
            two |-> [k \in 1..Len(Few) |-> [g |-> Few[k], p |-> MMul(Few[k], m), im |-> [i \in 1..Len(Vs) |-> Lin(Few[k], Lin(m, Vs[i]))]]]]))
=============================================================================
