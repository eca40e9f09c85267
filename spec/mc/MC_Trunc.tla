------------------------------ MODULE MC_Trunc ------------------------------
(* Scenes cut off after every character: one behaviour per scene, one state *)
(* per cut.                                                                  *)
EXTENDS Gen
S1 == "WorldBegin WorldEnd"
S2 == "LookAt 3 4 1.5 .5 .5 0 0 0 1\nCamera \"perspective\" \"float fov\" 45\nWorldBegin\nAttributeBegin\n Texture \"checks\" \"spectrum\" \"checkerboard\" \"float uscale\" [8] \"rgb tex1\" [.1 .1 .1]\n Shape \"sphere\" \"float radius\" 1\nAttributeEnd\nMaterial \"m\"\nWorldEnd"
S3 == "WorldBegin TransformBegin AttributeBegin Include \"f\" AttributeEnd Shape \"s\" \"spectrum k\" \"file\" TransformEnd LightSource \"l\" WorldEnd"
S4 == "Film \"i\" \"string filename\" \"a\\\"b\\n\" \"integer x\" [400] # c WorldBegin\nTransformTimes 0 1 Include \"WorldEnd\" WorldBegin # WorldEnd\n Shape \"s\" \"bool b\" [\"true\" \"false\"] \"point2 p\" [1 2 3 4] WorldEnd"
S5 == "ActiveTransform WorldEnd WorldBegin AttributeBegin AttributeBegin AttributeEnd AttributeEnd WorldEnd # tail"
S6 == "WorldBegin WorldBegin WorldEnd WorldEnd"
Scenes == <<S1, S2, S3, S4, S5, S6>>
\* the head names the scene; the text itself is empty at first
cHeads == {""}
VARIABLE k
TInit == Init /\ k \in 1..Len(Scenes)
TNext == /\ n < Len(Scenes[k])
         /\ s' = Feed(s, SubSeq(Scenes[k], n + 1, n + 1))
         /\ txt' = Append(txt, SubSeq(Scenes[k], n + 1, n + 1))
         /\ n' = n + 1
         /\ UNCHANGED <<h, k>>
cPiecesAt(i) == {}
cTailsOf(p, x) == {E(""), E("\n"), E(" WorldEnd")}
QuickLen == 0
DeepLen == 0
\* C09: a cut scene is rejected until the last keyword is complete.
KwEnd == CASE k = 5 -> Len(Scenes[5]) - 7 [] OTHER -> Len(Scenes[k])
Cut == n < KwEnd => ~Outcome(s).ok
Whole == n = Len(Scenes[k]) => Outcome(s).ok
=============================================================================
