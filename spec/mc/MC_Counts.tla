----------------------------- MODULE MC_Counts -----------------------------
(* Component counts of every list-valued parameter, with every ending. *)
EXTENDS Gen
QuickLen == 20
DeepLen == 40
Free == IF MaxLen = DeepLen THEN 10 ELSE 5
W == "WorldBegin Shape \"s\" "
cHeads == {W \o "\"" \o t \o " v\"" \o b : t \in {"integer", "float", "point2", "vector2", "rgb", "xyz", "blackbody", "spectrum"}, b \in {" [", " "}}
cPiecesAt(i) == {E(" " \o ToString(i))} \union (IF i <= Free THEN {E(" -" \o ToString(i) \o ".5")} ELSE {})
cTailsOf(p, x) == {E("] WorldEnd"), E(" WorldEnd"), E(" ] ] WorldEnd"), E(" \"x\"] WorldEnd"), E(" [ ] WorldEnd"), E("] \"float w\" 1 WorldEnd"), E("] Material \"m\" WorldEnd"), E("] 5 WorldEnd")}
=============================================================================
