----------------------------- MODULE MC_Params -----------------------------
(* Sequences of well-formed parameters after every kind of directive. *)
EXTENDS Gen
W == "WorldBegin "
cHeads == {W \o "Material \"m\"", W \o "Shape \"s\"", W \o "LightSource \"l\"", W \o "AreaLightSource \"d\"", W \o "Texture \"t\" \"f\" \"c\"",
           "Camera \"p\"", "Sampler \"h\"", "Film \"i\"", "Filter \"b\"", "Integrator \"x\"", "Accelerator \"k\"",
           W \o "Shape \"s\" \"float radius\" [1 2]", W \o "AttributeBegin Shape \"s\" \"rgb L\" [1 2 3] AttributeEnd Shape \"q\""}
Good1 == {"\"integer n\" 3", "\"integer n\" [-4]", "\"integer m\" [1 2 3]", "\"float r\" 0.5", "\"float r\" [7]", "\"float q\" [1 -.5 1e2 4]",
          "\"bool b\" \"true\"", "\"bool b\" [\"false\"]", "\"bool c\" [\"true\" \"false\" \"false\"]",
          "\"string s\" \"x y\"", "\"string s\" [\"u\"]", "\"string z\" [\"float a\" \"true\" \"\"]",
          "\"point2 p\" [1 2]", "\"point2 p\" [1 2 3 4 5 6]", "\"vector2 v\" [0.5 -1]", "\"vector2 v\" [1 2 3 4]",
          "\"rgb c\" [.25 .5 .75]", "\"rgb c\" [1 0 0]", "\"xyz c\" [1 2 3]", "\"blackbody e\" [6500 1]",
          "\"spectrum k\" [400 .5]", "\"spectrum k\" [300 1 400 2 500 3]", "\"spectrum k\" \"f.spd\"",
          "\"texture t\" \"tex\"", "\" float \t w \" 2", "\"integer n\" 5"}
cPiecesAt(i) == {E(" " \o x) : x \in Good1}
cTailsOf(p, x) == IF SubSeq(p, 1, 5) = "World" THEN {E(AutoClose(OpenStack(x)))} ELSE {E(" WorldBegin WorldEnd")}
QuickLen == 2
DeepLen == 3
=============================================================================
