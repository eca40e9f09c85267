------------------------------- MODULE MC_Help -------------------------------
(***************************************************************************)
(* The helpers the geometry shares: the extremes of a growing list, a       *)
(* matrix under exchanges of entries, interpolation of numbers.             *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json
CONSTANT Depth
VARIABLES lst, a, h, k
vars == <<lst, a, h, k>>
QuickDepth == 4
DeepDepth == 6
Vals == {-3, -1, 0, 2, 3}
Num16 == M4(LAMBDA i, j : 4 * (i - 1) + j)
Pos == {<<i, j>> : i \in I4, j \in I4}
Probe == {<<1, 1>>, <<1, 4>>, <<3, 2>>, <<4, 4>>}
Swap(x, p, q) == M4(LAMBDA i, j : IF <<i, j>> = p THEN x[q[1]][q[2]] ELSE IF <<i, j>> = q THEN x[p[1]][p[2]] ELSE x[i][j])
Init == /\ h = <<>> /\ a = Num16
        /\ \/ k = "list" /\ \E x \in Vals : lst = <<x>>
           \/ k = "swap" /\ lst = <<>>
Grow == k = "list" /\ Len(lst) < Depth /\ \E x \in Vals : lst' = Append(lst, x) /\ UNCHANGED <<a, h, k>>
Exch == /\ k = "swap"
        /\ \/ Len(h) = 0 /\ \E p, q \in Pos : a' = Swap(a, p, q) /\ h' = <<<<p, q>>>>
           \/ Len(h) \in 1..(Depth - 3) /\ \E p, q \in Probe : a' = Swap(a, p, q) /\ h' = Append(h, <<p, q>>)
        /\ UNCHANGED <<lst, k>>
Next == Grow \/ Exch
Least(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
Most(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= s[i]
Laws == /\ k = "list" => Least(lst) <= Most(lst) /\ (Len(lst) > 1 => Least(lst) = Mn(lst[1], Least(Tail(lst))) /\ Most(lst) = Mx(lst[1], Most(Tail(lst))))
        \* nothing is lost, and exchanging again undoes
        /\ {a[i][j] : i \in I4, j \in I4} = 1..16
        /\ h # <<>> => LET l == h[Len(h)] IN Swap(Swap(a, l[1], l[2]), l[1], l[2]) = a
Emit == PrintT("CASE " \o ToJson(
          IF k = "list" THEN [f |-> "list", l |-> lst, min |-> Least(lst), max |-> Most(lst),
                              lerp |-> [t \in 1..13 |-> LET q == t - 5 IN (4 - q) * lst[1] + q * lst[Len(lst)]]]     \* at q/4, in quarters
          ELSE [f |-> "swap", h |-> h, m |-> a]))
=============================================================================
