------------------------------- MODULE MC_Near -------------------------------
(* Every keyword with one character changed, dropped, doubled, moved or put   *)
(* in the other case, and words that share its beginning, its end and its     *)
(* length, in a scene that is well-formed with the keyword itself: only the   *)
(* keyword means what it means.                                               *)
EXTENDS Gen
\* before the keyword, the keyword, after it
Uses == { <<"", "Identity", " WorldBegin WorldEnd">>, <<"", "Translate", " 1 2 3 WorldBegin WorldEnd">>, <<"", "Scale", " 1 2 3 WorldBegin WorldEnd">>,
          <<"", "Rotate", " 1 2 3 4 WorldBegin WorldEnd">>, <<"", "LookAt", " 1 2 3 4 5 6 7 8 9 WorldBegin WorldEnd">>, <<"", "CoordinateSystem", " \"a\" WorldBegin WorldEnd">>,
          <<"", "CoordSysTransform", " \"a\" WorldBegin WorldEnd">>, <<"", "Transform", " 1 2 3 4 5 6 7 8 9 WorldBegin WorldEnd">>,
          <<"", "ConcatTransform", " 1 2 3 4 5 6 7 8 9 WorldBegin WorldEnd">>, <<"", "ActiveTransform", " All WorldBegin WorldEnd">>,
          <<"ActiveTransform ", "All", " WorldBegin WorldEnd">>, <<"ActiveTransform ", "StartTime", " WorldBegin WorldEnd">>, <<"ActiveTransform ", "EndTime", " WorldBegin WorldEnd">>,
          <<"", "TransformTimes", " 1 2 WorldBegin WorldEnd">>, <<"", "Camera", " \"a\" WorldBegin WorldEnd">>, <<"", "Sampler", " \"a\" WorldBegin WorldEnd">>,
          <<"", "Film", " \"a\" WorldBegin WorldEnd">>, <<"", "Filter", " \"a\" WorldBegin WorldEnd">>, <<"", "Integrator", " \"a\" WorldBegin WorldEnd">>,
          <<"", "Accelerator", " \"a\" WorldBegin WorldEnd">>, <<"", "Include", " \"a\" WorldBegin WorldEnd">>, <<"", "WorldBegin", " WorldEnd">>, <<"Identity ", "WorldBegin", " Shape \"s\" WorldEnd">>,
          <<"WorldBegin ", "WorldEnd", "">>, <<"WorldBegin Shape \"s\" ", "WorldEnd", "\n">>, <<"WorldBegin ", "AttributeBegin", " AttributeEnd WorldEnd">>, <<"WorldBegin ", "TransformBegin", " TransformEnd WorldEnd">>,
          <<"WorldBegin ", "WorldBegin", " WorldEnd WorldEnd">>, <<"WorldBegin AttributeBegin ", "AttributeEnd", " WorldEnd">>, <<"WorldBegin TransformBegin Shape \"s\" ", "TransformEnd", " Shape \"t\" WorldEnd">>,
          <<"WorldBegin WorldBegin ", "WorldEnd", " WorldEnd">>, <<"WorldBegin ", "Material", " \"a\" WorldEnd">>, <<"WorldBegin ", "Shape", " \"a\" WorldEnd">>,
          <<"WorldBegin ", "LightSource", " \"a\" WorldEnd">>, <<"WorldBegin ", "AreaLightSource", " \"a\" WorldEnd">>, <<"WorldBegin ", "Include", " \"a\" WorldEnd">>, <<"WorldBegin ", "Texture", " \"a\" \"b\" \"c\" WorldEnd">> }
cHeads == {u[1] : u \in Uses}
LowA == E("abcdefghijklmnopqrstuvwxyz")
UpA == E("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Flip(c) == IF \E i \in 1..26 : LowA[i] = c THEN UpA[CHOOSE i \in 1..26 : LowA[i] = c]
           ELSE IF \E i \in 1..26 : UpA[i] = c THEN LowA[CHOOSE i \in 1..26 : UpA[i] = c] ELSE c
Drop(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Put(w, i, c) == SubSeq(w, 1, i - 1) \o <<c>> \o SubSeq(w, i + 1, Len(w))
Ins(w, i, c) == SubSeq(w, 1, i) \o <<c>> \o SubSeq(w, i + 1, Len(w))
Swap2(w, i) == SubSeq(w, 1, i - 1) \o <<w[i + 1], w[i]>> \o SubSeq(w, i + 2, Len(w))
Xs(k) == [i \in 1..k |-> "x"]
Hold(w, a, b) == SubSeq(w, 1, a) \o Xs(Len(w) - a - b) \o SubSeq(w, Len(w) - b + 1, Len(w))
Muts(w) == LET L == Len(w) IN {w} \union {Drop(w, i) : i \in 1..L} \union {Put(w, i, "x") : i \in 1..L} \union {Put(w, i, Flip(w[i])) : i \in 1..L}
           \union {Ins(w, i, w[i]) : i \in 1..L} \union {Ins(w, i, "1") : i \in 1..L} \union {Swap2(w, i) : i \in 1..(L - 1)} \union {Ins(w, i, "<U+00E9>") : i \in {1, L}}
           \union {SubSeq(w, 1, i) : i \in 1..L} \union {Hold(w, a, b) : a \in 0..(IF L < 8 THEN 1 ELSE 4), b \in 0..(IF L < 8 THEN 1 ELSE 5)} \union {w \o <<"_">>, w \o <<"-">>, <<"_">> \o w, w \o w, w \o <<":">>, w \o <<"(", ")">>}
\* a piece is the mutated keyword with what follows
Mine(p) == {u \in Uses : u[1] = p}
cPiecesAt(i) == {m \o E(u[3]) : <<m, u>> \in UNION {{<<m, u>> : m \in Muts(E(u[2]))} : u \in Mine(h)}}
cTailsOf(p, x) == IF n = 0 THEN {} ELSE {E("")}
QuickLen == 1
DeepLen == 1
=============================================================================
