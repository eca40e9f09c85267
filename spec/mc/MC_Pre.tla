------------------------------- MODULE MC_Pre -------------------------------
(* Sequences of pre-world directives. *)
EXTENDS Gen
cHeads == {""}
Dirs == {"Identity", "Translate 1 2.5 -3", "Scale .5 2 4", "Rotate 90 0 1 -1", "LookAt 1 2 3 4 5 6 7 8 9.5", "CoordinateSystem \"cs\"",
         "CoordSysTransform \"ct\"", "Transform 9 8 7 6 5 4 3 2 1", "ConcatTransform 1 0 0 0 -1 0 0 0 2", "ActiveTransform All", "ActiveTransform StartTime",
         "TransformTimes 0 1.5", "Camera \"perspective\" \"float fov\" 45", "Sampler \"halton\"", "Film \"image\" \"integer x\" [4 5]", "Filter \"box\"",
         "Integrator \"path\"", "Accelerator \"bvh\"", "Include \"inc.pbrt\"", "TransformTimes 3 -4"}
cPiecesAt(i) == {E(x \o " ") : x \in Dirs}
cTailsOf(p, x) == {E("WorldBegin WorldEnd")}
QuickLen == 3
DeepLen == 4
=============================================================================
