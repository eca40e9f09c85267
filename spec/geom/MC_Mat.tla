------------------------------- MODULE MC_Mat -------------------------------
(***************************************************************************)
(* A matrix under a history of products, sums and transpositions.           *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json
CONSTANT Depth, Gens
VARIABLES m, n
vars == <<m, n>>
Unit(r, c) == M4(LAMBDA i, j : IF i = r /\ j = c THEN 1 ELSE 0)
D1 == <<<<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<9, -1, -2, -3>>, <<-4, -5, -6, -7>>>>
D2 == <<<<2, -3, 5, -7>>, <<11, 13, -17, 19>>, <<-1, 4, 6, 8>>, <<9, 10, -12, 14>>>>
D3 == <<<<0, 1, 0, -2>>, <<3, 0, 0, 1>>, <<0, 0, -5, 0>>, <<7, 0, 2, 0>>>>
Tr == <<<<1, 0, 0, 5>>, <<0, 1, 0, -6>>, <<0, 0, 1, 7>>, <<0, 0, 0, 1>>>>
Sc == <<<<2, 0, 0, 0>>, <<0, -3, 0, 0>>, <<0, 0, 4, 0>>, <<0, 0, 0, 1>>>>
Pm == <<<<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<1, 0, 0, 0>>>>
Units == {Unit(r, c) : r \in I4, c \in I4}
QuickGens == Units \union {Ident, Zero4, D1, D2, D3, Tr, Sc, Pm}
QuickDepth == 1
DeepDepth == 2
Init == m \in QuickGens /\ n = 0
Bounded == n < Depth /\ MaxAbs(m) <= 150
Next == /\ Bounded
        /\ n' = n + 1
        /\ \/ \E g \in Gens : m' = MMul(m, g)
           \/ \E g \in Gens : m' = MMul(g, m)
           \/ \E g \in Gens : m' = MAdd(m, g)
           \/ m' = MTr(m)
View == m
Laws == /\ MMul(m, Ident) = m /\ MMul(Ident, m) = m /\ MTr(MTr(m)) = m
        /\ \A g \in {D1, D3, Pm} : /\ MTr(MMul(m, g)) = MMul(MTr(g), MTr(m))
                                   /\ MTr(MAdd(m, g)) = MAdd(MTr(m), MTr(g))
                                   /\ \A x \in {D3, Tr} : /\ MMul(MMul(m, g), x) = MMul(m, MMul(g, x))
                                                          /\ MMul(m, MAdd(g, x)) = MAdd(MMul(m, g), MMul(m, x))
                                                          /\ MMul(MAdd(g, x), m) = MAdd(MMul(g, m), MMul(x, m))
EmitOne(a, b) == PrintT("CASE " \o ToJson([f |-> "mat", a |-> a, b |-> b, mul |-> MMul(a, b), add |-> MAdd(a, b), tr |-> MTr(a)]))
Emit == MaxAbs(m) <= 2000 => \A g \in Gens : EmitOne(m, g) /\ EmitOne(g, m)
=============================================================================
