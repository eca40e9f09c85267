------------------------------ MODULE MC_Pump ------------------------------
(* Texts with a part repeated k times (twice, for nesting).  The control    *)
(* state of the machines after each repetition is the same for all k >= 1   *)
(* (Regular), so that acceptance for k = 3 is acceptance for every k; the   *)
(* recipes are replayed with many repetitions.                              *)
EXTENDS Gen
R(hd, unit, mid, unit2, tail) == [head |-> hd, unit |-> unit, mid |-> mid, unit2 |-> unit2, tail |-> tail]
W == "WorldBegin "
Linear == {
  R("", "# c\n", "", "", "WorldBegin WorldEnd"), R("", "#\n", "", "", "WorldBegin"), R("", " ", "", "", "WorldBegin WorldEnd"), R("", "\n", "", "", "WorldBegin WorldEnd"),
  R("", " \t\r\n", "", "", "WorldBegin WorldEnd"), R("#", "x", "", "", "\nWorldBegin WorldEnd"), R("WorldBegin WorldEnd", "\n# c", "", "", ""), R("WorldBegin WorldEnd", "#", "", "", ""),
  R(W, "#c\n\n", "", "", "WorldEnd"), R(W \o "Shape \"s\" ", "#c\n", "", "", "\"float r\" 1 WorldEnd"), R(W \o "Shape \"s\" \"float r\" [1 ", "\n#c\n", "", "", " 2] WorldEnd"),
  R(W \o "Material \"", "a", "", "", "\" WorldEnd"), R(W \o "Material \"", "\\\"", "", "", "\" WorldEnd"), R(W \o "Material \"", "\\n\n", "", "", "\" WorldEnd"), R(W \o "Material \"", "a", "", "", ""),
  R(W \o "Shape \"s\" \"float v\" [1", " 2", "", "", "] WorldEnd"), R(W \o "Shape \"s\" \"integer v\" [1", " 2", "", "", "] WorldEnd"), R(W \o "Shape \"s\" \"integer v\" [1", " 2", "", "", " \"x\" ] WorldEnd"),
  R(W \o "Shape \"s\" \"string v\" [\"\"", " \"x\"", "", "", "] WorldEnd"), R(W \o "Shape \"s\" \"bool v\" [\"true\"", "\"false\"", "", "", "] WorldEnd"),
  R(W \o "Shape \"s\" \"point2 v\" [1 2", " 3 4", "", "", "] WorldEnd"), R(W \o "Shape \"s\" \"vector2 v\" [1 2", " 3 4", "", "", "] WorldEnd"), R(W \o "Shape \"s\" \"vector2 v\" [1 2", " 3 4", "", "", " 5] WorldEnd"),
  R(W \o "Shape \"s\" \"spectrum v\" [1 2", " 3 4", "", "", "] WorldEnd"), R(W \o "Shape \"s\" \"float v\" [1", " 2", "", "", ""),
  R(W \o "Shape \"s\"", " \"float a\" 1", "", "", " WorldEnd"), R(W \o "Shape \"s\"", " \"rgb a\" [1 2 3] \"string q\" \"\"", "", "", " WorldEnd"), R(W \o "Shape \"s\"", " \"float a\" 1", "", "", " \"float b\" WorldEnd"),
  R(W \o "Material \"m\"", " Material \"m\"", "", "", " WorldEnd"), R(W, "AttributeBegin AttributeEnd ", "", "", "WorldEnd"), R(W, "TransformBegin Shape \"s\" TransformEnd ", "", "", "WorldEnd"), R(W, "Include \"f\"\n", "", "", ""),
  R(W, "Texture \"a\" \"b\" \"c\" \"float u\" 1 ", "", "", "WorldEnd"), R("", "Identity ", "", "", "WorldBegin WorldEnd"), R("", "Translate 1 2 3\n", "", "", "WorldBegin WorldEnd"), R("Identity ", "LookAt 1 2 3 4 5 6 7 8 9\n", "", "", ""),
  R("Translate 1 2 3", " 4", "", "", " WorldBegin WorldEnd"), R("", "Camera \"c\" \"float f\" [1 2] ", "", "", "WorldBegin WorldEnd"), R("", "ActiveTransform All ", "", "", "WorldBegin WorldEnd"),
  R(W \o "Shape \"s\" \"integer v\" 0", "0", "", "", "1 WorldEnd"), R(W \o "Shape \"s\" \"float v\" 1.", "0", "", "", "1 WorldEnd"), R(W \o "Shape \"s\" \"float v\" 1.", "5", "", "", " WorldEnd"), R(W \o "Shape \"s\" \"float v\" .", "123", "", "", "e-1 WorldEnd"),
  R(W \o "Shape \"s\" \"float v\" 1e1", "e1", "", "", " WorldEnd"), R(W \o "Shape \"s\" \"integer v\" 100000000000000000000", "000", "", "", " WorldEnd"), R(W \o "Shape \"s\" \"float v\" 1e", "1", "", "", ".5 WorldEnd"), R(W \o "Shape \"s\" \"float v\" -", "-", "", "", "1 WorldEnd"),
  R("", "x", "", "", " WorldBegin WorldEnd"), R("ActiveTransform A", "b", "", "", " WorldBegin WorldEnd"), R(W \o "WorldEnd ", "x \"y\" 1 ] ", "", "", ""), R(W, "] ", "", "", "WorldEnd"), R("", "\"\"", "", "", "") }
\* nesting: at most 100 deep
Nested == {
  R(W, "AttributeBegin ", "", "AttributeEnd ", "WorldEnd"), R(W, "TransformBegin ", "Shape \"s\" \"float r\" [1] ", "TransformEnd ", "WorldEnd"), R(W, "WorldBegin ", "", "WorldEnd ", "WorldEnd"),
  R(W, "AttributeBegin TransformBegin Material \"m\" ", "Include \"f\" ", "TransformEnd AttributeEnd ", "Shape \"s\" WorldEnd"), R(W, "AttributeBegin ", "", "", "WorldEnd"), R(W, "AttributeBegin ", "Foo ", "AttributeEnd ", "WorldEnd"),
  R(W, "AttributeBegin Shape \"a\" ", "", "Shape \"b\" AttributeEnd ", "WorldEnd"), R("", "WorldBegin ", "", "", ""), R(W, "TransformBegin ", "", "AttributeEnd ", "WorldEnd") }

VARIABLES r, deep, base
Ctl(x) == LET c == Closed(x) IN <<x.lx.mode, x.lx.err.is, x.ps.mode, x.ps.err.is>>
PInit2 == /\ deep \in BOOLEAN
          /\ r \in IF deep THEN Nested ELSE Linear
          /\ h = "" /\ n = 0
          /\ txt = E(r.head) /\ s = FeedAll(SInit, E(r.head)) /\ base = <<>>
PNext == /\ n < MaxLen
         /\ s' = FeedAll(s, E(r.unit)) /\ txt' = txt \o E(r.unit) /\ n' = n + 1
         /\ base' = IF n = 0 THEN Ctl(s') ELSE base
         /\ UNCHANGED <<h, r, deep>>
RECURSIVE Reps(_, _)
Reps(str, k) == IF k = 0 THEN "" ELSE str \o Reps(str, k - 1)
Rest(k) == E(r.mid \o Reps(r.unit2, k) \o r.tail)
Final == Outcome(FeedAll(s, Rest(n)))
cHeads == {""}
cPiecesAt(i) == {}
cTailsOf(p, x) == {}
Regular == n >= 1 => Ctl(s) = base
EmitRecipe == n < MaxLen \/ PrintT("CASE " \o ToJson([head |-> r.head, unit |-> r.unit, mid |-> r.mid, unit2 |-> r.unit2, tail |-> r.tail, deep |-> deep, ok |-> Final.ok]))
\* acceptance does not depend on the number of repetitions
VARIABLE prev
PInit3 == PInit2 /\ prev = <<>>
PNext3 == PNext /\ prev' = IF n = 0 THEN <<>> ELSE <<Final.ok>>
Stable == n >= 2 => prev = <<Final.ok>>
QuickLen == 3
DeepLen == 6
=============================================================================
