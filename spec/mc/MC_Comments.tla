---------------------------- MODULE MC_Comments ----------------------------
(* Every short comment text, closed by either line ending, at several       *)
(* places of a scene: it means what one blank in its place means.           *)
EXTENDS Gen
Places == << <<"", "WorldBegin WorldEnd">>,
             <<"Translate 1 2 3", "WorldBegin WorldEnd">>,
             <<"WorldBegin AttributeBegin", "AttributeEnd WorldEnd">>,
             <<"WorldBegin Shape \"s\" \"float v\" [1 ", "2 ] WorldEnd">>,
             <<"WorldBegin Material \"m\"", "\"bool v\" \"true\" WorldEnd">> >>
cHeads == {Places[i][1] \o "#" : i \in DOMAIN Places}
PlaceOf(p) == CHOOSE i \in DOMAIN Places : Places[i][1] \o "#" = p
Special == {"\"", "#", "\\", " ", "\t", "\r", "[", "]", "1", "-", ".", "W", "e", "/", "*", "<U+00E9>", "<U+0085>", "<U+2028>", "<U+000B>"}
cPiecesAt(i) == Chars(Special)
Ends1 == {<<"\n">>, <<"\r", "\n">>, <<" ", "\n">>, <<"\n", "\n">>}
cTailsOf(p, x) == {e \o E(Places[PlaceOf(p)][2]) : e \in IF n = MaxLen THEN {<<"\n">>} ELSE Ends1}
CanonText == [i \in DOMAIN Places |-> E(Places[i][1] \o " " \o Places[i][2])]
CanonMeaning == [i \in DOMAIN Places |-> Meaning(FeedAll(SInit, CanonText[i]))]
SameMeaning == \A x \in cTailsOf(h, s) : Meaning(FeedAll(s, x)) = CanonMeaning[PlaceOf(h)]
EmitPairs == \A x \in cTailsOf(h, s) :
                PrintT("CASE " \o ToJson([i |-> Join(txt \o x), o |-> JOut(Outcome(FeedAll(s, x))), c |-> Join(CanonText[PlaceOf(h)])]))
QuickLen == 3
DeepLen == 4
=============================================================================
