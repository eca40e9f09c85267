---------------------------- MODULE MC_Keywords ----------------------------
(* Every keyword of either section and its near misses - cut, extended,     *)
(* changed in case - and the other keywords of the pbrt format, with every  *)
(* form of argument, in every place where a directive can start.            *)
EXTENDS Gen
Kws == {"Identity", "Translate", "Scale", "Rotate", "LookAt", "CoordinateSystem", "CoordSysTransform", "Transform", "ConcatTransform",
        "ActiveTransform", "TransformTimes", "Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator", "Include", "Material", "Shape",
        "LightSource", "AreaLightSource", "Texture", "AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "WorldBegin", "WorldEnd"}
Foreign == {"ReverseOrientation", "ObjectBegin", "ObjectEnd", "ObjectInstance", "MakeNamedMedium", "MediumInterface", "MakeNamedMaterial", "NamedMaterial",
            "AreaLight", "Light", "PixelFilter", "SurfaceIntegrator", "VolumeIntegrator", "Renderer", "Volume", "CoordinateSysTransform", "ConcatTransforms",
            "Begin", "End", "World", "Attribute", "AttributeBlock", "TransformBlock", "WorldBlock", "BlockEnd", "Look", "LookAtAll", "Light1", "x", "e", "true",
            "Param", "ColorSpace", "Option", "Import", "Mesh", "Sphere", "Perspective", "Null", "None", "EOF"}
Low(c) == IF c \in Upper THEN CHOOSE l \in Lower : \E i \in 1..26 : <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>[i] = c
                                                   /\ <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>[i] = l
          ELSE c
Up(c) == IF c \in Lower THEN CHOOSE u \in Upper : Low(u) = c ELSE c
MapStr(f(_), w) == Join([i \in 1..Len(w) |-> f(SubSeq(w, i, i))])
Near(w) == {w, SubSeq(w, 1, Len(w) - 1), SubSeq(w, 2, Len(w)), w \o "s", w \o "1", w \o "Begin", w \o "End", "X" \o w,
            Low(SubSeq(w, 1, 1)) \o SubSeq(w, 2, Len(w)), MapStr(Low, w), MapStr(Up, w)}
Words1 == UNION {Near(w) : w \in Kws} \union Foreign
Args == {"", " \"a\"", " \"a\" \"b\" \"c\"", " \"a\" \"float x\" 1", " 1 2 3", " 1 2 3 4 5 6 7 8 9", " All", " Shape \"a\"", " Identity Shape \"a\""}
cHeads == {"", "WorldBegin", "WorldBegin AttributeBegin", "Camera \"c\" \"float f\" 1", "WorldBegin Shape \"s\" \"float r\" [1 2]", "WorldBegin Include \"f\" TransformBegin TransformEnd"}
cPiecesAt(i) == IF i = 1 THEN {E(" " \o x) : x \in Words1} ELSE ES(Args)
cTailsOf(p, x) == IF n = 1 THEN {}
                  ELSE IF p # "" /\ SubSeq(p, 1, 5) = "World" THEN {E(" WorldEnd"), E(AutoClose(OpenStack(x))), E(" AttributeEnd WorldEnd")}
                  ELSE {E(" WorldBegin WorldEnd")}
QuickLen == 2
DeepLen == 2
=============================================================================
