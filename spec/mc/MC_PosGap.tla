----------------------------- MODULE MC_PosGap -----------------------------
(* Every short run of characters that moves the position, before and        *)
(* between directives, parameters and errors.                               *)
EXTENDS Gen
cHeads == {"", "WorldBegin", "WorldBegin Shape \"s\"", "Camera \"c\"", "WorldBegin Material \"a", "WorldBegin #"}
cPiecesAt(i) == Chars({" ", "\t", "\n", "\r", "#", "<U+00E9>", "<U+1F600>"})
cTailsOf(p, x) == CASE p = "" -> {E("Identity\nTranslate 1 2 3 WorldBegin WorldEnd"), E("WorldBegin 1"), E("Translate 1 WorldBegin WorldEnd")}
                    [] p = "WorldBegin" -> {E(" Shape \"s\" \"float r\" 1\r\n Material \"m\" WorldEnd"), E("\nFoo WorldEnd"), E(" \"float r\" 1 WorldEnd")}
                    [] p = "Camera \"c\"" -> {E(" \"float fov\" 4\nWorldBegin WorldEnd"), E("\n \"float\" 4\nWorldBegin WorldEnd")}
                    [] p = "WorldBegin Shape \"s\"" -> {E("\"float r\" 1 \"bool b\" \"true\"\nWorldEnd"), E("\"float r\" \"x\" WorldEnd"), E("\"rgb r\"\n[1 2 3 4] WorldEnd"), E("\"point2 r\"\n[1 2 3] WorldEnd"), E("\n\"spectrum r\"\n [1 2 3] WorldEnd"), E("_")}
                    [] OTHER -> {E("\" Include \"x\" WorldEnd"), E("\n Shape \"s\" \"float r\" 2 WorldEnd"), E("\n Include \"x\" WorldEnd"), E("")}
QuickLen == 4
DeepLen == 6
=============================================================================
