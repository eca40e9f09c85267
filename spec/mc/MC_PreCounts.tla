---------------------------- MODULE MC_PreCounts ----------------------------
(* Argument counts 0..MaxLen (all combinations of two kinds for the first) of the numeric pre-world directives, distinct  *)
(* arguments so that exchanged ones show.                                    *)
EXTENDS Gen
QuickLen == 20
DeepLen == 70
Free == IF MaxLen = DeepLen THEN 10 ELSE 7
cHeads == {"Translate", "Scale", "Rotate", "LookAt", "Transform", "ConcatTransform", "TransformTimes", "Identity", "Camera \"c\" LookAt"}
cPiecesAt(i) == {E(" " \o ToString(i))} \union (IF i <= Free THEN {E(" -" \o ToString(i) \o ".5")} ELSE {})
cTailsOf(p, x) == {E(" WorldBegin WorldEnd"), E(" Scale 1 2 3 WorldBegin WorldEnd"), E(" \"x\" WorldBegin WorldEnd"), E(" ] WorldBegin WorldEnd")}
=============================================================================
