------------------------------- MODULE MC_Ray -------------------------------
(***************************************************************************)
(* A ray with differentials under a history of scalings.  Everything is in  *)
(* units of 1/D: fractions stay exact.                                      *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json
CONSTANT Depth
VARIABLES ray, off, h, num, den
vars == <<ray, off, h, num, den>>
QuickDepth == 3
DeepDepth == 5
\* factors as fractions; the extreme ones at most once
Ss == {<<0, 1>>, <<1, 2>>, <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<3, 1>>}
Xs == {<<3000, 1>>, <<-4096, 1>>, <<100001, 1>>, <<1, 1024>>, <<-1, 4096>>, <<1, 1048576>>}
Mild == \A i \in 1..Len(h) : h[i] \in Ss
Rays == {[o |-> <<0, 0, 0>>, d |-> <<0, 0, 1>>], [o |-> <<1, -2, 3>>, d |-> <<4, 5, -6>>], [o |-> <<-7, 0, 2>>, d |-> <<0, -1, 0>>]}
\* distances of the auxiliary origins and directions from the main ray's
Offs == {<< <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>> >>, << <<8, -4, 2>>, <<-6, 10, 4>>, <<2, 4, -8>>, <<-2, 6, 12>> >>, << <<0, 0, 0>>, <<3, 3, 3>>, <<-5, 0, 0>>, <<0, 0, 7>> >>}
Init == ray \in Rays /\ off \in Offs /\ h = <<>> /\ num = 1 /\ den = 1
Next == /\ Len(h) < Depth
        /\ \E s \in Ss \union (IF Mild /\ Len(h) < 3 THEN Xs ELSE {}) : h' = Append(h, s) /\ num' = num * s[1] /\ den' = den * s[2]
        /\ UNCHANGED <<ray, off>>
\* the product of the factors, however they are grouped
Product == num = FoldLeft(LAMBDA a, x : a * x[1], 1, h) /\ den = FoldLeft(LAMBDA a, x : a * x[2], 1, h)
Aux(i) == [n |-> Add3(Scale3(IF i <= 2 THEN ray.o ELSE ray.d, den), Scale3(off[i], num)), d |-> den]
Collapse == (\E i \in 1..Len(h) : h[i][1] = 0) => \A i \in 1..4 : Aux(i).n = Scale3(IF i <= 2 THEN ray.o ELSE ray.d, den)
Keep == (\A i \in 1..Len(h) : h[i] = <<1, 1>>) => \A i \in 1..4 : Aux(i).n = Scale3(Add3(IF i <= 2 THEN ray.o ELSE ray.d, off[i]), den)
Ts == <<-3, 0, 1, 2, 4, 10>>      \* in halves
At == [i \in 1..Len(Ts) |-> <<Ts[i], Add3(Scale3(ray.o, 2), Scale3(ray.d, Ts[i]))>>]
Emit == PrintT("CASE " \o ToJson([f |-> "ray", ray |-> ray, off |-> off, h |-> h, aux |-> [i \in 1..4 |-> Aux(i)], at |-> At]))
=============================================================================
