------------------------------ MODULE MC_Many ------------------------------
(* Many of the same: k numbered values, parameters, directives or blocks in  *)
(* a row, or blocks nested k deep; then the scene is finished well or badly. *)
EXTENDS Gen
W == "WorldBegin "
N(i) == ToString(i)
Ix(k) == [i \in 1..k |-> i]
Many(k, f(_)) == FoldLeft(LAMBDA x, i : x \o E(f(i)), <<>>, Ix(k))
Down(k, f(_)) == FoldLeft(LAMBDA x, i : x \o E(f(k + 1 - i)), <<>>, Ix(k))
Lists == {"integer", "float", "bool", "string", "point2", "vector2", "spectrum"}
Value(ty, i) == CASE ty = "bool" -> (IF i % 3 = 0 THEN " \"true\"" ELSE " \"false\"") [] ty = "string" -> " \"v" \o N(i) \o "\""
                  [] ty = "float" -> " " \o N(i) \o ".5" [] ty \in {"point2", "vector2", "spectrum"} -> " " \o N(i) \o " -" \o N(i) [] OTHER -> " " \o N(i)
One(ty, i) == CASE ty = "bool" -> "\"true\"" [] ty \in {"string", "texture"} -> "\"v\"" [] ty \in {"rgb", "xyz"} -> "[1 2 " \o N(i) \o "]"
                [] ty \in {"point2", "vector2", "spectrum", "blackbody"} -> "[1 " \o N(i) \o "]" [] OTHER -> N(i)
Types == <<"integer", "float", "bool", "string", "point2", "vector2", "rgb", "xyz", "blackbody", "spectrum", "texture">>
Mixed(i) == " \"" \o Types[(i % 11) + 1] \o " p" \o N(i) \o "\" " \o One(Types[(i % 11) + 1], i)
Dirs == <<"Material \"m", "Shape \"s", "LightSource \"l", "AreaLightSource \"a", "Include \"i", "AttributeBegin AttributeEnd Shape \"q">>
Blk(i) == IF i % 3 = 0 THEN "Transform" ELSE "Attribute"
Pres == <<"CoordinateSystem \"c", "Camera \"c", "Include \"x", "Film \"f">>

Row == {<<"list", t>> : t \in Lists} \cup {<<"same", t>> : t \in {Types[i] : i \in DOMAIN Types}}
       \cup {<<"mixed", "">>, <<"dirs", "">>, <<"empty", "">>, <<"params", "">>, <<"pre", "">>, <<"move", "">>, <<"lines", "">>}
Nest == {<<"nest", "">>, <<"left", "">>, <<"right", "">>, <<"wrong", "">>, <<"open", "">>, <<"over", "">>, <<"worlds", "">>}
Text(kind, k) ==
    LET x == kind[1]  t == kind[2] IN
    CASE x = "list" -> E(W \o "Shape \"s\" \"" \o t \o " v\" [") \o Many(k, LAMBDA i : Value(t, i)) \o E(" ] Material \"m\" ")
      [] x = "same" -> E(W \o "Shape \"s\"") \o Many(k, LAMBDA i : " \"" \o t \o " p" \o N(i % 40) \o "\" " \o One(t, i)) \o E(" Material \"m\" ")
      [] x = "mixed" -> E(W \o "Material \"s\"") \o Many(k, Mixed) \o E(" Material \"m\" ")
      [] x = "dirs" -> E(W) \o Many(k, LAMBDA i : Dirs[(i % 6) + 1] \o N(i) \o "\" ")
      [] x = "empty" -> E(W) \o Many(k, LAMBDA i : Blk(i) \o "Begin " \o Blk(i) \o "End ")
      [] x = "params" -> E(W) \o Many(k, LAMBDA i : "Shape \"s\" \"float r\" " \o N(i) \o "\n")
      [] x = "pre" -> Many(k, LAMBDA i : Pres[(i % 4) + 1] \o N(i) \o "\"\n") \o E(W)
      [] x = "move" -> Many(k, LAMBDA i : "Translate " \o N(i) \o " 2 3 Identity\n") \o E(W)
      [] x = "lines" -> E("\n# c\n") \o Many(k, LAMBDA i : "# " \o N(i) \o "\r\n\n") \o E(W \o "Shape \"s\"\n \"float r\" 1 ")
      [] x = "nest" -> E(W) \o Many(k, LAMBDA i : Blk(i) \o "Begin Shape \"d" \o N(i) \o "\" ") \o Down(k, LAMBDA i : Blk(i) \o "End Shape \"u" \o N(i) \o "\" ")
      [] x = "left" -> E(W) \o Many(k, LAMBDA i : Blk(i) \o "Begin ") \o Down(k, LAMBDA i : "Include \"" \o N(i) \o "\" " \o Blk(i) \o "End ")
      [] x = "right" -> E(W) \o Many(k, LAMBDA i : "Material \"" \o N(i) \o "\" \"float r\" 1 " \o Blk(i) \o "Begin ") \o Down(k, LAMBDA i : Blk(i) \o "End ")
      [] x = "wrong" -> E(W) \o Many(k, LAMBDA i : Blk(i) \o "Begin ") \o Down(k, LAMBDA i : (IF i = 1 THEN "Transform" ELSE Blk(i)) \o "End ")
      [] x = "open" -> E(W) \o Many(k, LAMBDA i : Blk(i) \o "Begin ") \o Down(k - 1, LAMBDA i : Blk(i) \o "End ")
      [] x = "over" -> E(W) \o Many(k, LAMBDA i : Blk(i) \o "Begin ") \o Down(k, LAMBDA i : Blk(i) \o "End ") \o E("AttributeEnd ")
      [] x = "worlds" -> E(W) \o Many(k, LAMBDA i : W) \o Down(k, LAMBDA i : "WorldEnd ")
Spoil == {"Foo ", "\"float r\" ", "1 ", "] ", "AttributeEnd ", "Shape \"s\" \"rgb c\" [1 2] ", ""}
Lens(kind) == IF kind \in Nest THEN IF MaxLen = 1 THEN {16, 33, 65, 99} ELSE {2, 7, 16, 31, 33, 50, 64, 65, 80, 98, 99}
              ELSE IF MaxLen = 1 THEN {17, 33, 65, 129, 257} ELSE {9, 17, 33, 65, 101, 129, 257, 513, 1026}

VARIABLES kind, len
MInit == /\ kind \in Row \cup Nest
         /\ len = 0 /\ h = "" /\ n = 0 /\ txt = <<>> /\ s = SInit
MNext == /\ n = 0 /\ n' = 1 /\ UNCHANGED <<h, kind>>
         /\ \E k \in Lens(kind) : /\ len' = k
                                  /\ txt' = Text(kind, k)
                                  /\ s' = [FeedAll(SInit, Text(kind, k)) EXCEPT !.raw = <<>>]
cHeads == {""}
cPiecesAt(i) == {}
cTailsOf(p, x) == IF n = 0 THEN {} ELSE {E("WorldEnd")} \cup (IF len > 1000 THEN {E("Foo WorldEnd")} ELSE {E(b \o (IF b = "" THEN "" ELSE "WorldEnd")) : b \in Spoil})
\* the scene has the directives, parameters and values that were counted out
Counted == n = 1 =>
    LET o == Outcome(FeedAll(s, E("WorldEnd")))  x == kind[1]
        pairs == kind[2] \in {"point2", "vector2", "spectrum"} IN
    /\ o.ok <=> x \notin {"wrong", "open", "over"}
    /\ x = "list" => Len(o.nodes) = 3 /\ Len(o.nodes[2].prms[1].vals) = (IF pairs THEN 2 * len ELSE len)
    /\ x \in {"same", "mixed"} => Len(o.nodes) = 3 /\ Len(o.nodes[2].prms) = len
    /\ x \in {"empty", "params", "pre", "worlds"} => Len(o.nodes) = len + 1
    /\ x \in {"nest", "move"} => Len(o.nodes) = (IF x = "nest" THEN 3 ELSE 2) * len + 1
    /\ x = "nest" => \E i \in 1..Len(o.nodes) : o.nodes[i].d = len + 1
ManyScene == len <= 257 => InvScene
QuickLen == 1
DeepLen == 2
=============================================================================
