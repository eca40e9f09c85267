---------------------------- MODULE MC_NumChars ----------------------------
(* All short character strings that can make or break a numeral. *)
EXTENDS Gen
cHeads == {"WorldBegin Shape \"s\" \"float v\" [", "WorldBegin Shape \"s\" \"integer v\" [", "Translate "}
cPiecesAt(i) == Chars({"0", "1", "7", ".", "-", "+", "e", " "})
cTailsOf(p, x) == IF p = "Translate " THEN {E(" 2 3 WorldBegin WorldEnd")} ELSE {E("]\nWorldEnd")}
QuickLen == 5
DeepLen == 7
=============================================================================
