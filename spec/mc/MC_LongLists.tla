---------------------------- MODULE MC_LongLists ----------------------------
(* Long value lists, long parameter sequences. *)
EXTENDS Gen
W == "WorldBegin Shape \"s\" "
cHeads == {W \o "\"integer v\" [1", W \o "\"float v\" [1.5", W \o "\"bool v\" [\"true\"", W \o "\"string v\" [\"s\"",
           W \o "\"point2 v\" [1 2", W \o "\"vector2 v\" [1 2", W \o "\"spectrum v\" [1 2", W \o "\"float a\" 1", W}
Item(p, i) == IF p = W THEN IF i % 3 = 0 THEN " \"float f\" [1 2]" ELSE IF i % 3 = 1 THEN " \"integer i\" 4" ELSE " \"rgb c\" [1 2 3]"
              ELSE IF p = W \o "\"bool v\" [\"true\"" THEN IF i % 2 = 0 THEN " \"true\"" ELSE " \"false\""
              ELSE IF p = W \o "\"string v\" [\"s\"" THEN " \"" \o ToString(i) \o "\""
              ELSE IF p = W \o "\"float a\" 1" THEN " \"float a" \o ToString(i) \o "\" " \o ToString(i)
              ELSE " " \o ToString(i)
cPiecesAt(i) == {E(Item(h, i))}
cTailsOf(p, x) == {E("] WorldEnd"), E(" WorldEnd")}
QuickLen == 130
DeepLen == 300
=============================================================================
