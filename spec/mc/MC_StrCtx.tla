----------------------------- MODULE MC_StrCtx -----------------------------
(* A set of string contents in every place a scene can hold a string. *)
EXTENDS Gen
W == "WorldBegin "
cHeads == {W \o "Material \"", W \o "Shape \"", W \o "LightSource \"", W \o "AreaLightSource \"", W \o "Include \"",
           W \o "Texture \"", W \o "Texture \"a\" \"", W \o "Texture \"a\" \"b\" \"",
           W \o "Shape \"s\" \"string v\" \"", W \o "Shape \"s\" \"string v\" [\"", W \o "Shape \"s\" \"texture v\" \"",
           W \o "Shape \"s\" \"spectrum v\" \"", W \o "Shape \"s\" \"float ", W \o "Shape \"s\" \"bool v\" \"",
           "Camera \"", "Sampler \"", "Film \"", "Filter \"", "Integrator \"", "Accelerator \"", "Include \"",
           "CoordinateSystem \"", "CoordSysTransform \"", "Film \"f\" \"string v\" [\""}
U(x) == CASE x = "eacute" -> <<"a", "<U+00E9>", "b">> [] x = "cjk" -> <<"<U+4E2D>", "<U+1F600>">> [] x = "nbsp" -> <<"a", "<U+00A0>", "b">>
          [] x = "nul" -> <<"<U+0000>">> [] x = "esc-e" -> <<"\\", "<U+00E9>">> [] OTHER -> E(x)
Contents == {"", "a", "A b", " lead", "trail ", "two  spaces", "#hash", "a#b", "[x]", "]", "1.5e3", "a\\\"b", "\\\\", "\\\\n", "\\n", "\\t", "\\r", "\\a", "\\0",
             "\\u", "\\'", "'", "line1\nline2", "cr\r\nlf", "\r", "\r\n", "\n\n", "tab\there", "WorldEnd", "C:\\\\dir\\\\f.png", "a/b_c-d.ext", "//", "~!@$%^&*(){}<>?;:,=|`",
             "true", "false", "eacute", "cjk", "nbsp", "nul", "esc-e", "a\\", "\\\"\\\"", "\\\n", "\\#"}
cPiecesAt(i) == IF i = 1 THEN {U(x) : x \in Contents} ELSE ES({"\\\\", "z"})
Fin(p) == IF SubSeq(p, 1, 5) = "World"
          THEN {E("\" WorldEnd"), E("\"] WorldEnd"), E("\" \"b\" \"c\" WorldEnd"), E("\" \"c\" WorldEnd"), E("\" 1 WorldEnd"), E("\"")}
          ELSE {E("\" WorldBegin WorldEnd"), E("\"] WorldBegin WorldEnd"), E("")}
cTailsOf(p, x) == IF n = 0 THEN {} ELSE Fin(p)
QuickLen == 2
DeepLen == 3
=============================================================================
