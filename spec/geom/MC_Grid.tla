------------------------------- MODULE MC_Grid -------------------------------
(***************************************************************************)
(* The iteration over a 2D box as a machine that visits one point per step. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Lo, Hi
VARIABLES b, cur, seen
vars == <<b, cur, seen>>
QuickLo == -2
QuickHi == 2
DeepLo == -3
DeepHi == 4
R == Lo..Hi
\* b = <<x0, y0, x1, y1>>; cur is the next point
Init == /\ b \in {<<x0, y0, x1, y1>> : x0 \in R, y0 \in R, x1 \in R, y1 \in R}
        /\ cur = <<b[1], b[2]>> /\ seen = <<>>
Done == cur[1] >= b[3] \/ cur[2] >= b[4]
Visit == /\ ~Done
         /\ seen' = Append(seen, cur)
         /\ cur' = IF cur[1] + 1 < b[3] THEN <<cur[1] + 1, cur[2]>> ELSE <<b[1], cur[2] + 1>>
         /\ UNCHANGED b
Next == Visit
Cells == {<<x, y>> : x \in b[1]..(b[3] - 1), y \in b[2]..(b[4] - 1)}
Before(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
InBox == \A i \in 1..Len(seen) : seen[i] \in Cells
Ordered == \A i \in 1..(Len(seen) - 1) : Before(seen[i], seen[i + 1])
Complete == Done => {seen[i] : i \in 1..Len(seen)} = Cells
Emit == Done => PrintT("CASE " \o ToJson([f |-> "grid", b |-> b, e |-> seen]))
=============================================================================
