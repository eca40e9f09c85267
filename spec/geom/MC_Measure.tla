----------------------------- MODULE MC_Measure -----------------------------
(* Measures, corners, relative coordinates and sphere of boxes.              *)
EXTENDS Geometry, TLC, Json
CONSTANT Los, Exts
VARIABLES lo, e
vars == <<lo, e>>
QuickLos == {<<0, 0, 0>>, <<-3, 5, 1>>, <<-2, -4, -8>>, <<7, -1, 2>>}
DeepLos == {<<x, y, z>> : x \in {-3, 0, 4}, y \in {-5, 0, 2}, z \in {-1, 0, 6}}
QuickExts == 0..5
DeepExts == 0..7
Init == lo \in Los /\ e = <<0, 0, 0>>
Next == \E i \in Axes, x \in Exts : e' = [e EXCEPT ![i] = x] /\ UNCHANGED lo
B == Box(lo, Add3(lo, e))
Laws == /\ LET m == BoxMeasures(B) IN m.volume.v >= 0 /\ m.area.v >= 0 /\ m.diagonal.v = e
        \* both ways round, complementary indices are opposite corners and each names a vertex
        /\ \A up \in BOOLEAN : \A n \in 0..7 :
              /\ Add3(Corner(B, n, up), Corner(B, 7 - n, up)) = Add3(B[1], B[2])
              /\ \A i \in Axes : Corner(B, n, up)[i] \in {B[1][i], B[2][i]}
        /\ \A i \in 1..Len(LongestAxes(B)) : \A j \in Axes : e[j] <= e[LongestAxes(B)[i] + 1]
        /\ \A i \in Axes : 2 * Sub3(Scale3(B[2], 2), Add3(B[1], B[2]))[i] = 2 * e[i]
Emit == PrintT("CASE " \o ToJson([f |-> "measure", b |-> B, ext |-> e, e |-> BoxMeasures(B), ax |-> LongestAxes(B),
                                  up |-> [n \in 1..8 |-> Corner(B, n - 1, TRUE)], dn |-> [n \in 1..8 |-> Corner(B, n - 1, FALSE)]]))
=============================================================================
