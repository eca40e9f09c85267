----------------------------- MODULE MC_PreArgs -----------------------------
(* Every pre-world keyword with every short argument list. *)
EXTENDS Gen
cHeads == {"Identity", "Translate", "Scale", "Rotate", "LookAt", "CoordinateSystem", "CoordSysTransform", "Transform", "ConcatTransform",
           "ActiveTransform", "TransformTimes", "Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator", "Include", "Unknown", "Shape", "identity"}
cPiecesAt(i) == {E(" " \o x) : x \in {"1", "-2.5", "\"s\"", "All", "[", "]", "Identity"}}
cTailsOf(p, x) == {E(" WorldBegin WorldEnd"), E(" Identity WorldBegin WorldEnd")}
QuickLen == 5
DeepLen == 8
=============================================================================
