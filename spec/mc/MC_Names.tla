------------------------------ MODULE MC_Names ------------------------------
(* Parameters of every type under names that mean something elsewhere: type  *)
(* names, keywords, numerals, punctuation, names a renderer knows; and two   *)
(* parameters under related names.  A name is only a name.                   *)
EXTENDS Gen
cHeads == {"WorldBegin Shape \"s\"", "Film \"f\"", "WorldBegin Texture \"t\" \"c\" \"d\""}
T == {"integer", "float", "bool", "string", "texture", "point2", "vector2", "rgb", "xyz", "blackbody", "spectrum"}
Val(t) == CASE t \in {"integer"} -> {"3", "[3 4]"} [] t = "float" -> {"2.5", "[1 2.5]"} [] t = "bool" -> {"\"true\"", "[\"false\" \"true\"]"}
            [] t = "string" -> {"\"u\"", "[\"u\" \"\"]"} [] t = "texture" -> {"\"u\""} [] t \in {"point2", "vector2"} -> {"[1 2 3 4]"}
            [] t \in {"rgb", "xyz"} -> {"[1 2 3]"} [] t = "blackbody" -> {"[5500 1]"} [] t = "spectrum" -> {"[1 2 3 4]", "\"u\""}
N == T \union {"point3", "vector3", "normal", "normal3", "color", "point", "int",
      "true", "false", "1", "-2.5", "1e3", ".", "[", "]", "[1]", "#", "#a", "a#", "=", "a=b", "a,b", "a.b", "a-b", "a_b", "a:b", "a/b", "'", "\\\"", "\\\\", "\\\"q\\\"", "$a", "%", "_", "-", "+", "*",
      "WorldEnd", "WorldBegin", "AttributeBegin", "Shape", "Include", "include", "Camera",
      "name", "type", "value", "file", "filename", "mapname", "L", "I", "Kd", "Ks", "P", "N", "uv", "st", "S", "indices", "scale", "from", "to", "radius", "fov", "eta", "k",
      "roughness", "bumpmap", "alpha", "shadowalpha", "twosided", "samples", "nsamples", "power", "sc", "eps", "NaN", "nan", "inf", "null", "none", "default", "all", "x", "X", "i", "n", "nn", "a1", "1a", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}
P(t, x, v) == E(" \"" \o t \o " " \o x \o "\" " \o v)
One == {P(t, x, v) : <<t, x, v>> \in UNION {{<<t, x, v>> : x \in N, v \in Val(t)} : t \in T}}
\* related names: equal, differing in case, beginnings of one another
R == {"abc", "Abc", "ABC", "ab", "abcd", "cba", "abc2", "xabc"}
V1(t) == CHOOSE v \in Val(t) : TRUE
Two == {P(t, x, V1(t)) \o P(u, y, V1(u)) : <<t, u, x, y>> \in {q \in T \X T \X R \X R : q[3] = "abc" /\ (q[1] = q[2] \/ q[4] \in {"abc", "ABC"})}}
cPiecesAt(i) == IF i = 1 THEN One \union Two ELSE {P(t, x, V1(t)) : t \in T, x \in {"abc", "float", "name"}}
cTailsOf(p, x) == IF n = 0 THEN {} ELSE {E(IF SubSeq(p, 1, 5) = "World" THEN " WorldEnd" ELSE " WorldBegin WorldEnd")}
QuickLen == 1
DeepLen == 2
=============================================================================
