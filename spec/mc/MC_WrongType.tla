---------------------------- MODULE MC_WrongType ----------------------------
(* A malformed parameter on every kind of directive, alone, before and      *)
(* after well-formed ones: each type with each kind of wrong value, at each *)
(* place of its list, and every near miss of a type or of a boolean.        *)
EXTENDS Gen
W == "WorldBegin "
Dirs == {W \o "Material \"m\"", W \o "Shape \"s\"", W \o "LightSource \"l\"", W \o "AreaLightSource \"d\"", W \o "Texture \"t\" \"f\" \"c\"",
         W \o "AttributeBegin Shape \"s\"", "Camera \"p\"", "Sampler \"h\"", "Film \"i\"", "Filter \"b\"", "Integrator \"x\"", "Accelerator \"k\""}
cHeads == {d \o g : d \in Dirs, g \in {"", " \"float w\" 2", " \"string w\" [\"u\" \"v\"] \"rgb w\" [1 2 3]"}}
P(ty, v) == " \"" \o ty \o " v\" " \o v
Nums == {"1.0", "2.5", "100.0", "1000.", "-3.0", "0.0", ".5", "12e-1", "1e-2", "2.0e2", "1e0.5", "16777216.0"}
Strs == {"\"a\"", "\"true\"", "\"1\"", "\"\"", "\"float q\""}
\* type -> elements of the wrong kind
Wrong == [integer |-> Nums \union Strs \union {"true", "x", "[1]"}, float |-> Strs \union {"true", "x", "[1]"},
          bool |-> {"1", "0", "true", "false", "\"True\"", "\"TRUE\"", "\"False\"", "\"t\"", "\"yes\"", "\"on\"", "\" true\"", "\"true \"", "\"1\"", "\"\"", "\"truefalse\""},
          string |-> {"1", "a", "1.5", "[\"a\"]"}, texture |-> {"1", "a", "[\"a\"]", "[]"},
          point2 |-> Strs \union {"x", "[1 2]"}, vector2 |-> Strs \union {"x", "[1 2]"}, rgb |-> Strs \union {"x", "[1]"}, xyz |-> Strs \union {"x"},
          blackbody |-> Strs \union {"x"}, spectrum |-> Strs \union {"x", "[1 2]"}]
RightE(ty, i) == IF ty = "bool" THEN "\"true\"" ELSE IF ty \in {"string", "texture"} THEN "\"s\"" ELSE ToString(i)
Fill(ty, k) == Join([i \in 1..k |-> RightE(ty, i) \o " "])
Bad1 == {P(ty, b) : <<ty, b>> \in UNION {{<<t, x>> : x \in Wrong[t] \ (IF t = "spectrum" THEN Strs ELSE {})} : t \in DOMAIN Wrong}}
Bad2 == UNION {{P(t, "[" \o Fill(t, k) \o x \o " " \o Fill(t, m) \o "]") : x \in Wrong[t], k \in {0, 1, 2, 3}, m \in {0, 1}} : t \in (DOMAIN Wrong) \ {"texture"}}
Types == {"point", "point3", "vector", "vector3", "normal", "normal3", "color", "colour", "int", "ints", "integers", "floats", "Float", "INTEGER", "boolean", "bools", "str", "strings", "rgba", "RGB", "srgb",
          "hsv", "xy", "xyzw", "black", "spectra", "textures", "tex", "double", "point2f", "vector2f", "point2i", "loat", "floa", "float,", "value", "", "\\n", "float\\"}
Bad3 == UNION {{P(t, v) : v \in {"1", "[1]", "[1 2]", "[1 2 3]", "\"a\"", "[\"a\"]", "\"true\""}} : t \in Types}
Bad4 == {" \"" \o d \o "\" " \o v : d \in {"float", "float a b", "float v 1", "v", " ", "integer  ", "float\\nv w", "rgb  a  b"}, v \in {"1", "[1 2 3]", "\"a\""}}
\* exactly two words: every one-word addition to a good declaration, before, between or after
Extra == {"#x", "#", "//", "=", "=1", ",", ";", ":", "[", "]", "[]", "1", "2.5", "-", "_", "*", "a", "float", "v", "uniform", "varying", "const", "\\\"", "\\\\", "(m)", "true", "<U+00E9>"}
Sym(w) == CASE w = "<U+00E9>" -> <<w>> [] OTHER -> E(w)
Bad6 == UNION {{E(" \"") \o d \o E("\" " \o v) : d \in {Sym(w) \o E(" float v"), E("float ") \o Sym(w) \o E(" v"), E("float v ") \o Sym(w), E("float v  ") \o Sym(w) \o E(" ")}} : w \in Extra, v \in {"1", "[1 2]"}}
Bad5 == UNION {{P(t, v) : v \in {"", "[", "[]", "[ ]", "]", "[[]]", "[" \o Fill(t, 2), Fill(t, 2) \o "]", Fill(t, 3), Fill(t, 2), "[" \o Fill(t, 2) \o "] ]", "[" \o Fill(t, 4) \o "]]"}} : t \in DOMAIN Wrong}
Pool == Bad1 \union Bad2 \union Bad3 \union Bad4 \union Bad5
cPiecesAt(i) == ES(Pool) \union Bad6
Ends2(p, x) == IF SubSeq(p, 1, 5) = "World" THEN AutoClose(x.ps.stk) ELSE " WorldBegin WorldEnd"
cTailsOf(p, x) == IF n = 0 THEN {} ELSE LET c == Ends2(p, x) IN {E(c), E(" \"float z\" 1" \o c)}
QuickLen == 1
DeepLen == 1
=============================================================================
