---------------------------- MODULE MC_Numerals ----------------------------
(* Numerals as sign * digits * fraction * exponent, around every limit. *)
EXTENDS Gen
cHeads == {"WorldBegin Shape \"s\" \"float v\" [", "WorldBegin Shape \"s\" \"integer v\" [", "Rotate "}
Signs == {"", "-", "+"}
Ints == {"", "0", "1", "00", "7", "12", "0012", "10", "250", "123456", "16777217", "2147483647", "2147483648", "4294967296",
         "9007199254740993", "922337203685477580", "9223372036854775807", "9223372036854775808", "9223372036854775809",
         "10000000000000000000", "99999999999999999999", "<U+0663>", "1<U+00BD>"}
Fracs == {"", ".", ".0", ".5", ".125", ".25", ".000001", ".1", ".33333333333", ".999999999", ".00", ".5."}
Exps == {"", "e0", "e1", "e+1", "e-1", "e2", "e-2", "e5", "e9", "e10", "e-10", "e17", "e18", "e19", "e20", "e30", "e-30", "e007", "e+05",
         "e2.5", "e.5", "e0.5", "e-1.5", "e2.0", "e-3.", "e12.25", "e35", "e-36", "e-40", "e-280", "e280", "e100", "e1e1", "e1e0", "e1e-1", "e", "e+", "e-", "e--1", "e.", "e63", "e64", "e256", "e4294967296",
         "e4294967297", "e9223372036854775807", "e99999999999999999999", "e-4294967296", "e-4294967297", "e9223372036854775808", "e-9223372036854775807", "e-9223372036854775808", "e-9223372036854775809", "e18446744073709551616", "ee1", "E5"}
Few(i) == CASE i = 1 -> Signs [] i = 2 -> Ints [] i = 3 -> Fracs [] i = 4 -> Exps
Sym(x) == CASE x = "<U+0663>" -> <<x>> [] x = "1<U+00BD>" -> <<"1", "<U+00BD>">> [] OTHER -> E(x)
cPiecesAt(i) == {Sym(x) : x \in Few(i)}
\* only complete numerals are emitted
cTailsOf(p, x) == IF n < 4 /\ ~Dead(s) THEN {} ELSE IF p = "Rotate " THEN {E(" 2 3 4 WorldBegin WorldEnd")} ELSE {E("]\nWorldEnd")}
QuickLen == 4
DeepLen == 4
=============================================================================
