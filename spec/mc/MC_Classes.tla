----------------------------- MODULE MC_Classes -----------------------------
(* One character of each class the lexer tells apart, in every place where   *)
(* a character can stand.  The texts are replayed with every character of    *)
(* the class in place of its representative: the specification treats them   *)
(* alike.  Also twice in a row (a digraph has no meaning of its own).        *)
EXTENDS Gen
Reps == [alpha |-> "<U+00E9>", num |-> "<U+0663>", alnum |-> "<U+2164>", white |-> "<U+2003>", other |-> "<U+20AC>"]
W == "WorldBegin "
Places == {<<"", W \o "WorldEnd">>, <<W, " WorldEnd">>, <<"WorldBegin", "WorldEnd">>, <<W \o "WorldEnd", "">>, <<W \o "WorldEnd ", " x">>,
           <<"# ", "\nTranslate 1 2 3 WorldBegin WorldEnd">>, <<W \o "WorldEnd #", "">>, <<W \o "#a", "b\n Material \"m\" WorldEnd">>,
           <<W \o "Material \"", "\" \"float r\" 1 WorldEnd">>, <<W \o "Material \"a", "b\" \"float r\" 1 WorldEnd">>, <<W \o "Material \"\\", "\" WorldEnd">>, <<W \o "Material \"a", "">>,
           <<W \o "Shape \"s\" \"float ", "\" 1 WorldEnd">>, <<W \o "Shape \"s\" \"float a", "b\" 1 WorldEnd">>, <<W \o "Shape \"s\" \"", "float a\" 1 WorldEnd">>, <<W \o "Shape \"s\" \"float", "a\" 1 WorldEnd">>, <<W \o "Shape \"s\" \"float a", "\" 1 WorldEnd">>,
           <<W \o "Shape \"s\" \"string a\" \"x", "\" \"bool b\" \"true\" WorldEnd">>, <<W \o "Shape \"s\" \"bool a\" \"true", "\" WorldEnd">>, <<W \o "Shape \"s\" \"texture a\" \"", "\" WorldEnd">>,
           <<W \o "Shape \"s\" \"float a\" 1", " WorldEnd">>, <<W \o "Shape \"s\" \"integer a\" [1", "2] WorldEnd">>, <<W \o "Shape \"s\" \"float a\" [", "2] WorldEnd">>, <<W \o "Shape \"s\" \"float a\" -", "1 WorldEnd">>, <<W \o "Shape \"s\" \"float a\" 1e", "1 WorldEnd">>,
           <<"ActiveTransform ", " WorldBegin WorldEnd">>, <<"ActiveTransform a", "b WorldBegin WorldEnd">>, <<"ActiveTransform a", " WorldBegin WorldEnd">>, <<"Translate 1", "2 3 WorldBegin WorldEnd">>, <<"Identity", "WorldBegin WorldEnd">>,
           <<W \o "Include \"f\"", "Include \"g\" WorldEnd">>, <<W \o "WorldEnd", "\n\"">>}
VARIABLES cls, blank, reps
KInit == /\ cls \in DOMAIN Reps /\ h = "" /\ n = 0 /\ reps \in 1..2
         /\ \E p \in Places : /\ txt = E(p[1]) \o [k \in 1..reps |-> Reps[cls]] \o E(p[2]) /\ s = FeedAll(SInit, txt)
                           /\ blank = FeedAll(SInit, E(p[1] \o " " \o p[2]))
KNext == FALSE /\ UNCHANGED <<vars, cls, blank, reps>>
cHeads == {""}
cPiecesAt(i) == {}
cTailsOf(p, x) == {<<>>}
TokShapes(x) == LET c == Closed(x) IN <<c.lx.err.is, [i \in 1..Len(c.toks) |-> <<c.toks[i].k, c.toks[i].v, c.toks[i].n>>]>>
\* C04: where it makes the same tokens as a blank, it means the same as a blank
Same == TokShapes(s) = TokShapes(blank)
SameMeaning == Same => Meaning(s) = Meaning(blank)
EmitClass == PrintT("CASE " \o ToJson([i |-> Join(txt), o |-> JOut(Outcome(s)), cls |-> cls, rep |-> Reps[cls], same |-> Same]))
QuickLen == 1
DeepLen == 2
=============================================================================
