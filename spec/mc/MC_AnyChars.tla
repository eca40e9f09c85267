---------------------------- MODULE MC_AnyChars ----------------------------
(* All short strings over characters of every class, in several contexts. *)
EXTENDS Gen
cHeads == {"", "WorldBegin Shape \"s\" \"float v\" [", "WorldBegin Material \"", "LookAt 1", "WorldBegin WorldEnd", "WorldBegin Shape \"s\" \"float v\" 1e"}
cPiecesAt(i) == Chars({"\"", "\\", "[", "]", "#", "\n", "\r", " ", "-", "+", ".", "e", "1", "a", "_", "<U+00E9>", "<U+00BD>", "<U+0000>", "<U+1F600>", "<U+2164>"})
cTailsOf(p, x) == {E(""), E("]\nWorldEnd"), E("\" ] WorldEnd")}
QuickLen == 3
DeepLen == 4
=============================================================================
