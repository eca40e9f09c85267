---------------------------- MODULE MC_Decimals ----------------------------
(* Long decimals: pseudo-random digits with the point anywhere, and decimals *)
(* next to the midpoint of two neighbouring floats of either width.          *)
EXTENDS Gen
cHeads == {"WorldBegin Shape \"s\" \"float v\" [", "TransformTimes 1 "}
Dig(k, i) == ((k * 7919 + i * 104729 + (k + i) * (k + 3 * i) * 31 + (k * i) \div 3) \div 7) % 10
DigitStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Long(k) == LET len == 7 + (k % 22)
               pt == (k \div 5) % (len + 1)
           IN  (IF (k % 3) = 0 THEN <<"-">> ELSE <<>>)
               \o FoldLeft(LAMBDA a, i : IF i = 0 THEN a \o (IF pt = 0 THEN <<".">> ELSE <<>>)
                                         ELSE a \o <<DigitStr[Dig(k, i) + 1]>> \o (IF i = pt THEN <<".">> ELSE <<>>),
                           <<>>, [i \in 1..(len + 1) |-> i - 1])
Mid == {"1.00000017881393432617187499", "1.00000017881393432617187501", "1.000000178813934326171875", "1.000000059604644775390625",
        "1.00000005960464477539062501", "1.00000005960464477539062499", "16777217.0", "16777217.00000000001", "16777218.99999999999", "16777219.0",
        "9007199254740993.0", "9007199254740993.00000000000000000001", "9007199254740992.99999999999999999999", "9007199254740995.0",
        "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203126",
        "1.00000000000000011102230246251565404236316680908203124", "0.1000000014901161193847656249", "0.500000029802322387695312500001",
        "-33554434.99999999999999", "3.4028234", "340282340000000000000000000000000000000.0", "0.00000000000000000000000000000000000001",
        "0.000000000000000000000000000000000000000000001", "123456789.123456789", "0.30000000000000004", "2.2250738585072011", "179769313486231570000.0",
        "-0.0", "-.0", "0.0000", "000000000000000000000000000000000000000000.5", "8388608.5", "8388609.5", "4503599627370497.5", "4503599627370496.5"}
N == IF MaxLen = 1 THEN 2500 ELSE 30000
cPiecesAt(i) == IF i > 1 THEN {} ELSE ES(Mid) \union {Long(k) : k \in 1..N}
cTailsOf(p, x) == IF n = 0 THEN {} ELSE IF p = "TransformTimes 1 " THEN {E(" WorldBegin WorldEnd")} ELSE {E("]\nWorldEnd")}
QuickLen == 1
DeepLen == 2
=============================================================================
