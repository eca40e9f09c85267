---------------------------- MODULE MC_StrChars ----------------------------
(* All short contents of a quoted string. *)
EXTENDS Gen
cHeads == {"WorldBegin Material \"", "WorldBegin Shape \"s\" \"string v\" [\"x\" \""}
cPiecesAt(i) == Chars({"a", "n", "\\", "\"", "#", "\n", "\r", "[", " ", "<U+00E9>", "1"})
cTailsOf(p, x) == IF p = "WorldBegin Material \""
                  THEN {E("\" Include \"g\" WorldEnd"), E("")}
                  ELSE {E("\" \"y\"] WorldEnd"), E("\\")}
QuickLen == 4
DeepLen == 6
=============================================================================
