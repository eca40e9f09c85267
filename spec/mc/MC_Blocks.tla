----------------------------- MODULE MC_Blocks -----------------------------
(* Sequences of block keywords and directives; the tail closes what is open. *)
EXTENDS Gen
cHeads == {"WorldBegin"}
Dirs == {"AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "Material \"m\"", "Shape \"s\" \"float r\" 1"}
cPiecesAt(i) == {E(" " \o x) : x \in Dirs}
cTailsOf(p, x) == {E(AutoClose(x.ps.stk)), E(" WorldEnd"), E("")}
QuickLen == 6
DeepLen == 8
=============================================================================
