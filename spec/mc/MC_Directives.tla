--------------------------- MODULE MC_Directives ---------------------------
(* All kinds of world directives, nested worlds included. *)
EXTENDS Gen
cHeads == {"WorldBegin", "Camera \"c\" WorldBegin AttributeBegin"}
Dirs == {"AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "WorldBegin", "WorldEnd",
         "Material \"m\"", "Shape \"s\" \"float r\" [1 2]", "Shape \"s2\"", "LightSource \"l\" \"rgb L\" [1 2 3]", "AreaLightSource \"a\"",
         "Include \"f\"", "Texture \"n\" \"t\" \"c\"", "Texture \"n\" \"t\" \"c\" \"float u\" 1"}
cPiecesAt(i) == {E(" " \o x) : x \in Dirs}
cTailsOf(p, x) == {E(AutoClose(x.ps.stk)), E(" WorldEnd")}
QuickLen == 3
DeepLen == 4
=============================================================================
