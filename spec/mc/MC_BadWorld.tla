---------------------------- MODULE MC_BadWorld ----------------------------
(* Stray tokens, unknown and misplaced keywords. *)
EXTENDS Gen
cHeads == {"", "WorldBegin", "Camera \"c\"", "WorldBegin AttributeBegin Shape \"s\" AttributeEnd", "WorldBegin TransformBegin"}
Dirs == {"WorldBegin", "WorldEnd", "AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "Material \"m\"", "Identity", "Translate 1 2 3", "Camera \"k\"", "Include \"i\"",
         "worldend", "AttributeEnds", "Foo", "Shape", "1", "\"x\"", "[", "]", "_", "Material m"}
cPiecesAt(i) == {E(" " \o x) : x \in Dirs}
cTailsOf(p, x) == {E(""), E(" WorldEnd"), E(" AttributeEnd WorldEnd"), E(" TransformEnd WorldEnd"), E(AutoClose(x.ps.stk)), E(" WorldBegin WorldEnd")}
QuickLen == 3
DeepLen == 4
=============================================================================
