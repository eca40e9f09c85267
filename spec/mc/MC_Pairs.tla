------------------------------ MODULE MC_Pairs ------------------------------
(* Two or three related strings in one scene: equal, differing in case or in *)
(* blanks, beginnings, ends, reversals and repetitions of one another, in    *)
(* all pairs of places.  Each keeps its own content.                         *)
EXTENDS Gen
W == "WorldBegin "
cHeads == {W \o "Material \"", W \o "Shape \"s\" \"string v\" [\"", W \o "Texture \"", W \o "Shape \"s\" \"texture v\" \"", W \o "Include \"",
           "Camera \"", "CoordinateSystem \"", "Include \""}
X == {"", "abc", "Abc", "ABC", "abc ", " abc", "ab", "abcd", "cba", "abcabc", "a b c", "a\\nc", "abc\\n", "ab\\\"c", "abc/", "./abc", "abc.d"}
Mids(p) == {"\" Shape \"", "\" \"string w\" \"", "\" \"string w\" [\"q\" \"", "\" \"", "\" \"texture w\" \"", "\" \"spectrum w\" \"", "\" AttributeBegin Include \"i\" AttributeEnd Material \"",
            "\"] \"string w\" [\"", "\"] Shape \"", "\" \"b\" \"c\" LightSource \"", "\" Film \"", "\" CoordSysTransform \"", "\" WorldBegin Material \"", "\" Include \""}
cPiecesAt(i) == IF i % 2 = 1 THEN ES(X) ELSE ES(Mids(h))
Fin(p, x) == {E("\"" \o AutoClose(x.ps.stk)), E("\"]" \o AutoClose(x.ps.stk)), E("\" \"c\"" \o AutoClose(x.ps.stk)), E("\" WorldBegin WorldEnd")}
Whole2(x) == Outcome(x).ok
\* only the completions that make a scene
cTailsOf(p, x) == IF n % 2 = 0 THEN {} ELSE {e \in Fin(p, x) : Whole2(FeedAll(x, e))}
QuickLen == 3
DeepLen == 3
=============================================================================
