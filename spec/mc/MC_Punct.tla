------------------------------ MODULE MC_Punct ------------------------------
(* No punctuation but quotes, brackets and the hash sign has a meaning: all  *)
(* pairs of punctuation characters where a token may start, after a token,   *)
(* and around a word, with what might close them.                            *)
EXTENDS Gen
cHeads == {"", "WorldBegin ", "WorldBegin Material \"m\" ", "WorldBegin Shape \"s\" \"float v\" [1 ", "Translate 1 2 3", "WorldBegin Include \"f\""}
P == {"!", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "^", "_", "`", "{", "|", "}", "~"}
cPiecesAt(i) == {<<x>> : x \in P} \union {<<x, y>> : x \in P, y \in P}
Mid == {E(""), E(" "), E("a b\n"), E(" x */ "), E(" x */\n"), E("a\n*/"), E("x>"), E("x)"), E("x}")}
cTailsOf(p, x) == IF n = 0 THEN {E("")} ELSE
                  LET z == IF p = "WorldBegin Shape \"s\" \"float v\" [1 " THEN E("2] WorldEnd") ELSE IF p \in {"", "Translate 1 2 3"} THEN E("WorldBegin WorldEnd") ELSE E("Material \"n\" WorldEnd")
                  IN {m \o z : m \in Mid}
QuickLen == 1
DeepLen == 1
=============================================================================
