---------------------------- MODULE MC_BadParams ----------------------------
(* Every short token sequence in place of a parameter. *)
EXTENDS Gen
W == "WorldBegin "
cHeads == {W \o "Shape \"s\"", W \o "Material \"m\" \"float u\" [1 2]", "Camera \"c\"", W \o "AttributeBegin Texture \"t\" \"f\" \"c\" \"rgb k\" [1 2 3]"}
Decls == {"\"integer v\"", "\"float v\"", "\"bool v\"", "\"string v\"", "\"point2 v\"", "\"vector2 v\"", "\"rgb v\"", "\"xyz v\"", "\"blackbody v\"",
          "\"spectrum v\"", "\"texture v\"", "\"float\"", "\"float a b\"", "\"foo v\"", "\"\"", "\"Float v\"", "\"point3 v\"", "\"v float\"", "\"integers v\"", "[", "1"}
Vals == {"[", "]", "1", "0.5", "\"a\"", "\"true\"", "Bar"}
cPiecesAt(i) == {E(" " \o x) : x \in IF i = 1 THEN Decls ELSE Vals}
Ends2(p, x) == IF SubSeq(p, 1, 5) = "World" THEN AutoClose(x.ps.stk) ELSE " WorldBegin WorldEnd"
cTailsOf(p, x) == IF n = 0 THEN {}
                  ELSE LET c == Ends2(p, x) IN {E(c), E(" ]" \o c), E(" \"float w\" 2" \o c), E(" Shape \"z\"" \o c)}
QuickLen == 6
DeepLen == 9
=============================================================================
