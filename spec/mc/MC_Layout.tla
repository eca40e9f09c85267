----------------------------- MODULE MC_Layout -----------------------------
(* A fixed sequence of tokens under every layout: the separators between    *)
(* the tokens are chosen freely, one blank being the canonical choice; a    *)
(* behaviour either deviates from it at most MaxLen times, or uses one      *)
(* other separator throughout (u).                                          *)
EXTENDS Gen
Bases == <<
  <<"WorldBegin", "Material", "\"m\"", "\"float", "r\"", "[", "1", "-.5", "]", "\"rgb c\"", "[", "1", "2", "3", "]", "AttributeBegin", "Shape", "\"s\"", "AttributeEnd", "Include", "\"f\"", "WorldEnd">>,
  <<"LookAt", "1", "2.5", "-3", "4", "5", "6", "7", "8", "9", "Camera", "\"c\"", "\"string x\"", "\"# [ 1\"", "ActiveTransform", "All", "Identity", "WorldBegin", "TransformBegin", "TransformEnd", "WorldEnd">>,
  <<"TransformTimes", "0", "1e2", "Film", "\"i\"", "\"bool b\"", "\"true\"", "\"integer n\"", "[", "7", "8", "]", "WorldBegin", "Texture", "\"a\"", "\"b\"", "\"c\"", "WorldEnd">>,
  <<"WorldBegin", "Shape", "\"s\"", "\"spectrum k\"", "[", "400", "1", "500", "]", "WorldEnd">>,
  <<"WorldBegin", "AttributeBegin", "Material", "\"m\"", "TransformEnd", "WorldEnd">>,
  <<"Translate", "1", "2", "WorldBegin", "WorldEnd">> >>
\* the first base has a string split over two pieces: its separator is content
InString(b, i) == b = 1 /\ i = 4

Uni(x) == CASE x = "nbsp" -> <<"<U+00A0>">> [] x = "vt" -> <<"<U+000B>">> [] x = "nel" -> <<"<U+0085>">> [] x = "em" -> <<"<U+2003>">>
            [] x = "uc" -> <<"#", "<U+00E9>", "<U+1F600>", "<U+2028>", "\n">> [] OTHER -> E(x)
Seps == {Uni(x) : x \in {" ", "", "  ", "\t", "\n", "\r\n", "\n\n", "\n \n", " \n\t ", "\r", "\f", "#c\n", "#\n", "#\r\n", " # c\n ", "# a\n# b\n", "\n\n# a\n\n#b\r\n\n",
         "##\n", "# WorldEnd\n", "#\"\n", " # [ \"x\" 1 ]\n", "# a\rb\n", "#\\\n", " # c:\\d \\\n", "#/*\n", "nbsp", "vt", "nel", "em", "uc"}}
CoreSeps == {Uni(x) : x \in {" ", "", "\t", "\n", "\r\n", "#c\n", " # [ \"x\" 1 ]\n", "# a\rb\n"}}
Leads == {Uni(x) : x \in {"", " ", "\n", "\r\n", "#c\n", "# WorldBegin\n\n", "\t# x\n# y\n", "uc"}}
Trails == {Uni(x) : x \in {"", " ", "\n", "\r\n", "\r", "#", "# c", "\n# c\n", " # WorldEnd", "#\r", "uc"}}
Blank == <<" ">>

VARIABLES b, u, dev
lvars == <<s, txt, h, n, b, u, dev>>
Tk(k, i) == E(Bases[k][i])
CanonText == [k \in DOMAIN Bases |->
    LET parts == [i \in 1..Len(Bases[k]) |-> (IF i = 1 THEN <<>> ELSE Blank) \o Tk(k, i)]
    IN  FoldLeft(LAMBDA x, y : x \o y, <<>>, parts)]
CanonState == [k \in DOMAIN Bases |-> FeedAll(SInit, CanonText[k])]
TokShapes(x) == LET c == Closed(x) IN [i \in 1..Len(c.toks) |-> <<c.toks[i].k, c.toks[i].v, c.toks[i].n>>]
CanonShapes == [k \in DOMAIN Bases |-> TokShapes(CanonState[k])]
CanonMeaning == [k \in DOMAIN Bases |-> Meaning(CanonState[k])]

LInit == /\ h = "" /\ n = 1
         /\ b \in DOMAIN Bases
         /\ u \in Seps
         /\ \E l \in IF u = Blank THEN Leads ELSE {<<>>} :
               /\ txt = l \o Tk(b, 1)
               /\ s = FeedAll(SInit, l \o Tk(b, 1))
               /\ dev = IF l = <<>> THEN 0 ELSE 1
LNext == /\ n < Len(Bases[b])
         /\ \E sep \in IF InString(b, n) THEN {Blank} ELSE IF u # Blank THEN {u} ELSE IF dev = 0 THEN Seps ELSE IF dev < MaxLen THEN CoreSeps ELSE {Blank} :
               /\ s' = FeedAll(s, sep \o Tk(b, n + 1))
               /\ txt' = txt \o sep \o Tk(b, n + 1)
               /\ dev' = IF sep = Blank THEN dev ELSE dev + 1
         /\ n' = n + 1
         /\ UNCHANGED <<h, b, u>>
cHeads == {""}
cPiecesAt(i) == {}
cTailsOf(p, x) == IF n < Len(Bases[b]) THEN {} ELSE IF dev < MaxLen THEN Trails ELSE {<<>>}
\* C04: same tokens, same meaning; and white space or a comment never merges or splits tokens.
SameMeaning == \A x \in cTailsOf(h, s) : LET e == FeedAll(s, x) IN
                  /\ TokShapes(e) = CanonShapes[b] => Meaning(e) = CanonMeaning[b]
                  /\ u # <<>> /\ dev = 0 => TokShapes(e) = CanonShapes[b]
\* each text with the one it must mean the same as ("": its tokens differ)
EmitPairs == \A x \in cTailsOf(h, s) : LET e == FeedAll(s, x) IN
                PrintT("CASE " \o ToJson([i |-> Join(txt \o x), o |-> JOut(Outcome(e)),
                       c |-> IF TokShapes(e) = CanonShapes[b] THEN Join(CanonText[b]) ELSE ""]))
QuickLen == 1
DeepLen == 2
=============================================================================
