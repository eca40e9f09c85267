------------------------------- MODULE MC_Box -------------------------------
(***************************************************************************)
(* A box under construction, as a machine: it starts from two points, and  *)
(* points and boxes are added, boxes are cut with it, it is expanded.      *)
(* Whatever it came from, it must be the hull of its corners and behave as  *)
(* a set of points.                                                        *)
(* All coordinates come from the grid 0..G, which has all orders of the    *)
(* endpoints of two intervals when G >= 3; operations that only compare    *)
(* are replayed under other (also infinite) order-preserving coordinates.  *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json
CONSTANT G
VARIABLES b, op     \* the box; the operation that made it
vars == <<b, op>>
Grid == 0..G
Pts == {<<x, y, z>> : x \in Grid, y \in Grid, z \in Grid}
Boxes == {x \in {Box(p, q) : p \in Pts, q \in Pts} : ~Empty(x)}
QuickG == 2
DeepG == 3
Init == \E p \in Pts : b = Hull({p, p}) /\ op = "new"
Next == \/ \E p \in Pts : b' = Hull(Corners(b) \union {p}) /\ op' = "union_pt"
        \/ \E q \in Boxes : b' = Intersect(b, q) /\ ~Empty(b') /\ op' = "intersect"
View == b

\* hull: contains its points, and every box that contains them contains it
HullOK == \A p \in Pts : LET u == Hull(Corners(b) \union {p}) IN
            /\ In(u, p) /\ In(u, b[1]) /\ In(u, b[2])
            /\ \A q \in {Box(b[1], b[2]), u, Box(<<0, 0, 0>>, <<G, G, G>>)} :
                  In(q, p) /\ In(q, b[1]) /\ In(q, b[2]) => In(q, u[1]) /\ In(q, u[2])
\* set semantics of intersection, overlap and union against every box of a sample
Others == {Box(p, Add3(p, V(LAMBDA i : IF p[i] < G THEN 1 ELSE 0))) : p \in Pts} \union {Box(p, p) : p \in Pts}
SetsOK == \A q \in Others :
            /\ \A p \in Pts : In(Intersect(b, q), p) <=> In(b, p) /\ In(q, p)
            /\ Overlap(b, q) <=> \E p \in Pts : In(b, p) /\ In(q, p)
            /\ \A p \in Pts : In(b, p) \/ In(q, p) => In(Union(b, q), p)
ExpandOK == \A k \in 0..2 : LET x == Expand(b, k) IN Extent(x) = V(LAMBDA i : Extent(b)[i] + 2 * k) /\ In(x, b[1]) /\ In(x, b[2])

Sorted3(S) == SetToSortSeq(S, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3]))))
PtSeq == Sorted3(Pts)
\* one line for the box itself, one for each partner
Emit == /\ PrintT("CASE " \o ToJson([f |-> "box", b |-> b, G |-> G,
              up |-> [i \in 1..Len(PtSeq) |-> <<PtSeq[i], Hull(Corners(b) \union {PtSeq[i]})>>],
              in |-> [i \in 1..Len(PtSeq) |-> <<PtSeq[i], In(b, PtSeq[i]), InX(b, PtSeq[i])>>],
              ex |-> [k \in 1..3 |-> <<k - 1, Expand(b, k - 1)>>]]))
        /\ \A q \in Boxes : PrintT("CASE " \o ToJson([f |-> "box2", b |-> b, q |-> q, G |-> G, u |-> Union(b, q),
              i |-> Intersect(b, q), ie |-> Empty(Intersect(b, q)), o |-> Overlap(b, q)]))
=============================================================================
