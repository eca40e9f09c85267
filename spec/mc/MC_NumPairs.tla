----------------------------- MODULE MC_NumPairs -----------------------------
(* Several related numbers in one list or directive: equal, opposite,        *)
(* neighbouring, zero among others.  Each keeps its own value.               *)
EXTENDS Gen
W == "WorldBegin Shape \"s\" \""
Lists == {W \o "integer v\" [", W \o "float v\" [", W \o "point2 v\" [", W \o "vector2 v\" [", W \o "rgb v\" [", W \o "xyz v\" [", W \o "blackbody v\" [", W \o "spectrum v\" ["}
Args == {"Translate ", "Scale ", "Rotate ", "LookAt 0 0 5 ", "LookAt 1 1 1 1 1 1 ", "Transform 1 0 0 0 1 0 ", "ConcatTransform 1 0 0 0 1 0 ", "ConcatTransform 1 0 0 ", "Transform 2 ", "TransformTimes "}
cHeads == Lists \union Args
Nums == {"0", "1", "-1", "2", "1.0", "-0.5", "360", "-360", "1e3", "1000"}
cPiecesAt(i) == {E(x \o " ") : x \in Nums}
Fill(k) == Join([i \in 1..k |-> "7 "])
Whole2(x) == Outcome(x).ok
cTailsOf(p, x) == IF n = 0 THEN {} ELSE
                  IF p \in Lists THEN {e \in {E("] WorldEnd"), E("9] WorldEnd")} : Whole2(FeedAll(x, e))}
                  ELSE {e \in {E(Fill(k) \o "WorldBegin WorldEnd") : k \in 0..6} : Whole2(FeedAll(x, e))}
QuickLen == 3
DeepLen == 4
=============================================================================
