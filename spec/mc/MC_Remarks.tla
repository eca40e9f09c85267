----------------------------- MODULE MC_Remarks -----------------------------
(* Comments that begin with any two characters and go on like a scene, with  *)
(* and without an end of line: what they contain is never interpreted.       *)
EXTENDS Gen
\* before, within the comment, after the end of the line (or nothing at all)
Spots == << <<"", "WorldBegin WorldEnd", "\n", "WorldBegin Shape \"s\" WorldEnd">>,
            <<"", " WorldBegin WorldEnd", "", "">>,
            <<"", "Include \"f\"", "\r\n", "Identity WorldBegin WorldEnd">>,
            <<"WorldBegin ", " Material \"m\" WorldEnd", "\n", "WorldEnd">>,
            <<"WorldBegin", " WorldEnd", "", "">>,
            <<"WorldBegin Shape \"s\" \"float v\" [1", " 3 ]", "\n", "2] WorldEnd">>,
            <<"WorldBegin WorldEnd", " \"", "", "">>,
            <<"Identity\n", "\\", "\n", "WorldBegin WorldEnd">> >>
cHeads == {Spots[i][1] \o "#" : i \in DOMAIN Spots}
P == {"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~", " ", "\t", "0", "a", "W"}
Body == {<<x>> : x \in P} \union {<<x, y>> : x \in P, y \in P} \union
        ES({"include", "if 0", "endif", "define X", "pragma", "line 7", "version 3", "encoding", "EOF", "END", "end", "region", "!/usr/bin/env pbrt", "-*- coding: utf-8 -*-", "begin"})
cPiecesAt(i) == Body
At(p) == {i \in DOMAIN Spots : Spots[i][1] \o "#" = p}
Rest(i) == E(Spots[i][2]) \o E(Spots[i][3]) \o E(Spots[i][4])
cTailsOf(p, x) == IF n = 0 THEN {} ELSE {Rest(i) : i \in At(p)}
CanonText == [i \in DOMAIN Spots |-> E(Spots[i][1] \o " " \o Spots[i][4])]
CanonMeaning == [i \in DOMAIN Spots |-> Meaning(FeedAll(SInit, CanonText[i]))]
SameMeaning == n > 0 => \A i \in At(h) : Meaning(FeedAll(s, Rest(i))) = CanonMeaning[i]
EmitPairs == n > 0 => \A i \in At(h) :
                PrintT("CASE " \o ToJson([i |-> Join(txt \o Rest(i)), o |-> JOut(Outcome(FeedAll(s, Rest(i)))), c |-> Join(CanonText[i])]))
QuickLen == 1
DeepLen == 1
=============================================================================
