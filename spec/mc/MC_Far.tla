------------------------------- MODULE MC_Far -------------------------------
(* Long texts: one run (see Lexer) of blanks, line ends, comment lines or    *)
(* other characters at every place between the tokens of a scene, inside     *)
(* comments and strings of every kind, in identifiers and where nothing is   *)
(* allowed.                                                                  *)
EXTENDS Gen
Bases == <<
  <<"LookAt", "1", "2.5", "-3", "4", "5", "6", "7", "8", "9", "Camera", "\"c\"", "\"string x\"", "\"y\"", "WorldBegin", "Shape", "\"s\"", "\"float r\"", "[", "1", "2", "]", "\"rgb c\"", "[", "1", "2", "3", "]",
    "TransformBegin", "Include", "\"f\"", "TransformEnd", "Texture", "\"a\"", "\"b\"", "\"c\"", "WorldEnd">>,
  <<"Translate", "1", "2", "WorldBegin", "WorldEnd">>,
  <<"WorldBegin", "Shape", "\"s\"", "\"point2 p\"", "[", "1", "2", "3", "]", "WorldEnd">>,
  <<"WorldBegin", "Shape", "\"s\"", "\"spectrum p\"", "[", "1", "2", "3", "]", "WorldEnd">>,
  <<"WorldBegin", "Shape", "\"s\"", "\"rgb p\"", "[", "1", "2", "3", "4", "]", "WorldEnd">>,
  <<"WorldBegin", "AttributeBegin", "TransformEnd", "WorldEnd">>,
  <<"WorldBegin", "Material", "\"m\"", "\"float\"", "1", "WorldEnd">> >>
JoinToks(ts) == FoldLeft(LAMBDA x, y : x \o E(y) \o <<" ">>, <<>>, ts)
\* [pre, post]: pre, the run, post; gap: with a blank instead of the run the tokens are the same
Slot(pre, post, gap) == [pre |-> pre, post |-> post, gap |-> gap]
GapSlots == UNION {{Slot(JoinToks(SubSeq(Bases[b], 1, i)), JoinToks(SubSeq(Bases[b], i + 1, Len(Bases[b]))), TRUE) : i \in 0..Len(Bases[b])} : b \in DOMAIN Bases}
CommentSlots == {Slot(x.pre \o <<"#">>, <<"\n">> \o x.post, TRUE) : x \in {y \in GapSlots : Len(y.pre) % 3 = 0}} \cup {Slot(E("WorldBegin WorldEnd#"), <<>>, TRUE)}
S(pre, post) == Slot(E(pre), E(post), FALSE)
W == "WorldBegin "
M == " \"float r\" 1\nMaterial \"m\" WorldEnd"
StrSlots == {S(p, "\"" \o M) : p \in {W \o "Shape \"", W \o "Shape \"a", W \o "Material \"x\\n", W \o "Shape \"s\" \"string v\" \"", W \o "Texture \"a\" \"b\" \"",
                                      W \o "LightSource \"", W \o "AreaLightSource \"", W \o "Shape \"s\" \"texture t\" \"a", W \o "Shape \"s\" \"spectrum t\" \""}}
    \cup {S(p, "\" 1" \o M) : p \in {W \o "Shape \"s\" \"float ", W \o "Shape \"s\" \"float a", W \o "Shape \"s\" \"", W \o "Shape \"s\" \"a", W \o "Shape \"s\" \"float",
                                     W \o "Shape \"s\" \"float v ", W \o "Shape \"s\" \" ", W \o "Shape \"s\" \"bool v\" \""}}
    \cup {S(W \o "Shape \"s\" \"", "float w\" 1" \o M), S(W \o "Shape \"s\" \"float v", "\" 1" \o M), S(W \o "Shape \"s\" \"string v\" [\"a\" \"", "\" \"b\"]" \o M),
          S(W \o "Shape \"s\" \"bool v\" \"", "\"" \o M), S(W \o "Shape \"s\" \"float v\" \"", "\"" \o M), S(W \o "Include \"a", "\" Material \"m\" WorldEnd"),
          S("Camera \"", "\" \"float f\" 1 WorldBegin WorldEnd"), S("CoordinateSystem \"a", "\" WorldBegin WorldEnd"), S("Include \"", "\" WorldBegin WorldEnd"), S("Translate \"", "\" WorldBegin WorldEnd"),
          S(W \o "Material \"", ""), S(W \o "Material \"a", "\\"), S(W \o "\"", "\" WorldEnd"), S("\"a", "\"")}
IdSlots == {S("", " WorldBegin WorldEnd"), S("x", ""), S(W, " WorldEnd"), S(W \o "x", "1 \"s\" WorldEnd"), S(W \o "Material", " \"m\" WorldEnd"), S("ActiveTransform ", " WorldBegin WorldEnd"), S("ActiveTransform x", " WorldBegin WorldEnd"),
            S(W \o "Shape \"s\" \"float v\" [1 ", "] WorldEnd"), S(W \o "Shape ", " WorldEnd"), S(W \o "WorldEnd ", " x"), S("Translate 1 2 ", " 3 WorldBegin WorldEnd")}
Blanks == {"sp", "tab", "nl", "crlf", "cmt", "em", "hash"}
Letters == {"a", "eacute", "euro", "cjk", "emoji"}
Lens == IF MaxLen = 1 THEN {3, 26, 51, 260, 1030, 65540} ELSE RunLens

VARIABLES run, slot
KindsOf(x) == IF x \in GapSlots THEN Blanks ELSE IF x \in CommentSlots THEN {"a", "eacute", "emoji", "sp", "hash"}
              ELSE IF x \in StrSlots THEN Letters \cup {"sp", "nl"} ELSE Letters
FInit == /\ slot \in GapSlots \cup CommentSlots \cup StrSlots \cup IdSlots
         /\ run = <<>> /\ h = "" /\ n = 0 /\ txt = slot.pre /\ s = FeedAll(SInit, slot.pre)
FNext == \E kind \in KindsOf(slot), k \in Lens :
           /\ n = 0 /\ n' = 1 /\ run' = <<kind, k>> /\ UNCHANGED <<h, slot>>
           /\ k > 5000 => Len(slot.pre) % 4 = 1 \/ ~slot.gap       \* the longest at some places only
           \* a hash run makes a comment of its own
           /\ LET rest == <<Run(kind, k)>> \o (IF kind = "hash" THEN <<"\n">> ELSE <<>>) \o slot.post IN
              txt' = txt \o rest /\ s' = FeedAll(s, rest)
cHeads == {""}
cPiecesAt(i) == {}
cTailsOf(p, x) == IF n = 1 THEN {<<>>} ELSE {}

Canon == slot.pre \o <<" ">> \o slot.post
TokShapes(x) == LET c == Closed(x) IN [i \in 1..Len(c.toks) |-> <<c.toks[i].k, c.toks[i].v, c.toks[i].n>>]
SameTokens == TokShapes(s) = TokShapes(FeedAll(SInit, Canon))
SameMeaning == n = 1 /\ slot.gap => SameTokens /\ Meaning(s) = Meaning(FeedAll(SInit, Canon))
EmitFar == n = 0 \/ PrintT("CASE " \o ToJson([i |-> Join(txt), o |-> JOut(Outcome(s)), c |-> IF slot.gap THEN Join(Canon) ELSE ""]))

\* the acceleration is right: written out, the tokens and the errors are the same
Unit == CASE run[1] = "crlf" -> <<"\r", "\n">> [] run[1] = "cmt" -> <<"#", "c", "\n">> [] run[1] = "em" -> <<"<U+2003>">> [] OTHER -> <<RunKinds[run[1]][1]>>
Reps(k) == FoldLeft(LAMBDA x, i : x \o Unit, <<>>, [i \in 1..k |-> i])
Spell(cs) == FoldLeft(LAMBDA x, c : IF IsRun(c) THEN x \o Reps(Times(c)) ELSE Append(x, c), <<>>, cs)
RunSound == (IF n = 1 THEN run[2] <= 26 ELSE FALSE) =>
    LET a == Closed(s)  b == Closed(FeedAll(SInit, Spell(txt))) IN
    /\ a.lx.err = b.lx.err /\ a.ps.err = b.ps.err /\ a.ps.mode = b.ps.mode
    /\ Len(a.toks) = Len(b.toks)
    /\ \A i \in 1..Len(a.toks) : /\ a.toks[i].k = b.toks[i].k /\ a.toks[i].pos = b.toks[i].pos /\ a.toks[i].n = b.toks[i].n
                                 /\ (a.toks[i].k \in {"id", "str"} => Spell(a.toks[i].cs) = b.toks[i].cs)
    /\ Len(a.ps.nodes) = Len(b.ps.nodes)
    /\ \A i \in 1..Len(a.ps.nodes) : /\ a.ps.nodes[i].k = b.ps.nodes[i].k /\ a.ps.nodes[i].d = b.ps.nodes[i].d /\ a.ps.nodes[i].pos = b.ps.nodes[i].pos
                                     /\ Len(a.ps.nodes[i].prms) = Len(b.ps.nodes[i].prms)
QuickLen == 1
DeepLen == 2
=============================================================================
