----------------------------- MODULE MC_NumCtx -----------------------------
(* The same numerals in every place a scene can hold a number. *)
EXTENDS Gen
cHeads == {"WorldBegin Shape \"s\" \"integer v\" ", "WorldBegin Shape \"s\" \"float v\" ", "WorldBegin Shape \"s\" \"integer v\" [7 ",
           "WorldBegin Shape \"s\" \"float v\" [7 ", "WorldBegin Shape \"s\" \"point2 v\" [", "WorldBegin Shape \"s\" \"vector2 v\" [7 ",
           "WorldBegin Shape \"s\" \"rgb v\" [1 ", "WorldBegin Shape \"s\" \"xyz v\" [", "WorldBegin Shape \"s\" \"blackbody v\" [",
           "WorldBegin Shape \"s\" \"spectrum v\" [",
           "Translate 7 ", "Scale ", "Rotate 6 7 ", "LookAt 1 2 3 4 5 6 7 ", "Transform 1 2 3 4 5 6 7 ",
           "ConcatTransform 1 2 3 4 5 6 7 ", "TransformTimes ", "Camera \"c\" \"float v\" [", "Film \"f\" \"integer v\" ["}
Nums == {"0", "-0", "1", "-1", "+5", "07", "1.5", "-2.25", ".5", "-.125", "3.", "1e3", "-1e3", "25e-1", "1.5e2", "-1.25e-2", "2e+2",
         "123456789", "2147483648", "-9223372036854775808", "1e18", "0.1", "100.001"}
cPiecesAt(i) == IF i = 1 THEN ES(Nums) ELSE {E(" " \o x) : x \in {"4", "-.5", "1e1"}}
Close(p, k) == IF SubSeq(p, 1, 5) = "World" THEN {E(" WorldEnd"), E("] WorldEnd"), E(" 9] WorldEnd")}
               ELSE IF SubSeq(p, 1, 4) \in {"Came", "Film"} THEN {E("] WorldBegin WorldEnd")}
               ELSE {E(" WorldBegin WorldEnd"), E(" 9 WorldBegin WorldEnd")}
cTailsOf(p, x) == IF n = 0 THEN {} ELSE Close(p, n)
QuickLen == 3
DeepLen == 4
=============================================================================
