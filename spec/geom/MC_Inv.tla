------------------------------- MODULE MC_Inv -------------------------------
(***************************************************************************)
(* Invertible matrices, reached from scaled permutations by elementary row  *)
(* and column operations, with their exact inverses adj/det; and the same   *)
(* matrices with a row or a column cleared, which must be refused.          *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json
CONSTANT Depth, Factors, Diags
VARIABLES m, n
vars == <<m, n>>
PermSet == {p \in [I4 -> I4] : \A i, j \in I4 : i # j => p[i] # p[j]}
QuickDiags == {<<1, 1, 1, 1>>, <<1, -2, 4, 3>>}
DeepDiags == {<<1, 1, 1, 1>>, <<1, -2, 4, 3>>, <<5, 1, -1, 2>>, <<-3, 2, 2, 1>>}
QuickFactors == {-2, 1, 3}
DeepFactors == {-3, -2, -1, 1, 2, 4}
QuickDepth == 1
DeepDepth == 2
Init == /\ n = 0
        /\ \E p \in PermSet, d \in Diags : m = M4(LAMBDA i, j : IF p[i] = j THEN d[i] ELSE 0)
RowOp(a, r, s, k) == [a EXCEPT ![r] = [j \in I4 |-> a[r][j] + k * a[s][j]]]
Next == /\ n < Depth /\ n' = n + 1
        /\ \E r, s \in I4, k \in Factors :
             /\ r # s
             /\ \/ m' = RowOp(m, r, s, k)
                \/ m' = MTr(RowOp(MTr(m), r, s, k))
View == m
Laws == Det(m) # 0 /\ IsInverse(m, Adj(m), Det(m)) /\ Det(MTr(m)) = Det(m) /\ ~ZeroRow(m) /\ ~ZeroCol(m)
Clear(a, r) == [a EXCEPT ![r] = <<0, 0, 0, 0>>]
ClearedOK == \A r \in I4 : Det(Clear(m, r)) = 0 /\ Det(MTr(Clear(MTr(m), r))) = 0
Emit == /\ PrintT("CASE " \o ToJson([f |-> "inv", m |-> m, adj |-> Adj(m), det |-> Det(m)]))
        /\ \A r \in I4 : /\ PrintT("CASE " \o ToJson([f |-> "sing", m |-> Clear(m, r)]))
                         /\ PrintT("CASE " \o ToJson([f |-> "sing", m |-> MTr(Clear(MTr(m), r))]))
=============================================================================
