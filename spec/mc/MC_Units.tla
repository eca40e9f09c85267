------------------------------ MODULE MC_Units ------------------------------
(* A stray word or sign at each place of a list or beside a single value,    *)
(* apart from or glued to a number: no suffix, unit or placeholder has a     *)
(* meaning.                                                                  *)
EXTENDS Gen
cHeads == {"WorldBegin Shape \"s\" ", "Film \"f\" \"float a\" 1 "}
Lets == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Wds == {"mm", "cm", "km", "px", "deg", "rad", "pi", "inf", "nan", "NaN", "Inf", "infinity", "null", "nil", "none", "true", "false", "and", "of", "to", "x2", "f32", "f64", "u8", "ul", "LL", "float", "xyz", "etc", "end", "End", "WorldEnd",
          ",", ";", ":", "/", "*", "|", "%", "=", "'", "(", ")", "{", "}", "<", ">", "!", "?", "@", "$", "&", "^", "~", "_", "`", "-", "+", ".", "..", "...", "--", "0x1", "1_000", "1,000", "1:2", "1/2", "1*2", "$1", "'1'", "(1)", "{1}", "<1>", "1%", "%1", "@1"}
U == Lets \union Wds
P(t, v) == "\"" \o t \o " v\" " \o v
Cat0 == UNION {{P(t, "[" \o u \o " 1 2]"), P(t, "[1 " \o u \o " 2]"), P(t, "[1 2 " \o u \o "]"), P(t, "[1 2" \o u \o "]"), P(t, "[1 2] " \o u), P(t, "[" \o u \o "]")} : t \in {"float", "integer", "point2", "spectrum", "blackbody"}, u \in U}
Cat1 == UNION {{P(t, u), P(t, "1" \o u), P(t, "1.5" \o u), P(t, "1 " \o u), P(t, u \o "1"), P(t, u \o " 1")} : t \in {"float", "integer"}, u \in U}
Cat2 == UNION {{P(t, "[\"true\" " \o u \o "]"), P(t, "[" \o u \o " \"true\"]"), P(t, "\"true\" " \o u), P(t, u \o " \"true\""), P(t, u)} : t \in {"bool", "string", "texture", "spectrum"}, u \in U}
Cat3 == UNION {{P(t, "[1 2 3 " \o u \o "]"), P(t, "[1 2 3" \o u \o "]"), P(t, "[1 2 " \o u \o "]"), P(t, "[" \o u \o " 1 2 3]")} : t \in {"rgb", "xyz"}, u \in U}
cPiecesAt(i) == ES(Cat0 \union Cat1 \union Cat2 \union Cat3)
cTailsOf(p, x) == IF n = 0 THEN {} ELSE {E(IF SubSeq(p, 1, 5) = "World" THEN " WorldEnd" ELSE " WorldBegin WorldEnd")}
QuickLen == 1
DeepLen == 1
=============================================================================
