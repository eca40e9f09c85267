------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The mathematics the geometry code is to agree with, over the integers.  *)
(* Vectors, points and normals are triples; a box is a pair of triples; a  *)
(* matrix is a 4-tuple of rows.  A result is [v, d]: a value and its       *)
(* degree, so that scaling all arguments by s scales it by s^d, which is   *)
(* how one integer case stands for cases of every magnitude.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Axes == 1..3
V(f(_)) == <<f(1), f(2), f(3)>>
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Ab(a) == IF a < 0 THEN -a ELSE a
R(v, d) == [v |-> v, d |-> d]

(* vectors *)
Add3(a, b) == V(LAMBDA i : a[i] + b[i])
Sub3(a, b) == V(LAMBDA i : a[i] - b[i])
Scale3(a, k) == V(LAMBDA i : k * a[i])
Neg3(a) == V(LAMBDA i : -a[i])
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Next3(i) == (i % 3) + 1
Cross3(a, b) == V(LAMBDA i : a[Next3(i)] * b[Next3(Next3(i))] - a[Next3(Next3(i))] * b[Next3(i)])
Min3(a, b) == V(LAMBDA i : Mn(a[i], b[i]))
Max3(a, b) == V(LAMBDA i : Mx(a[i], b[i]))
MaxComp(a) == Mx(a[1], Mx(a[2], a[3]))
MinComp(a) == Mn(a[1], Mn(a[2], a[3]))
MaxDims(a) == SetToSortSeq({i - 1 : i \in {j \in Axes : a[j] = MaxComp(a)}}, <)
Perms == [n \in 1..27 |-> <<(n - 1) \div 9, ((n - 1) \div 3) % 3, (n - 1) % 3>>]
Permute(a, p) == <<a[p[1] + 1], a[p[2] + 1], a[p[3] + 1]>>
FaceForward(a, b) == IF Dot3(a, b) > 0 THEN <<a>> ELSE IF Dot3(a, b) < 0 THEN <<Neg3(a)>> ELSE <<a, Neg3(a)>>

VecResults(a, b, k) ==
    [add |-> R(Add3(a, b), 1), sub |-> R(Sub3(a, b), 1), neg |-> R(Neg3(a), 1), mul |-> R(Scale3(a, k), 1),
     div |-> R(a, 1),                      \* of k*a by k
     dot |-> R(Dot3(a, b), 2), cross |-> R(Cross3(a, b), 2), lensq |-> R(Dot3(a, a), 2),
     min |-> R(Min3(a, b), 1), max |-> R(Max3(a, b), 1), abs |-> R(V(LAMBDA i : Ab(a[i])), 1),
     mincomp |-> R(MinComp(a), 1), maxcomp |-> R(MaxComp(a), 1),
     perms |-> R([n \in 1..27 |-> Permute(a, Perms[n])], 1),
     comps |-> R(a, 1), xy |-> R(<<a[1], a[2]>>, 1), absxy |-> R(<<Ab(a[1]), Ab(a[2])>>, 1)]
\* results that are choices: any member will do
VecChoices(a, b) == [maxdim |-> R(MaxDims(a), 0), ff |-> R(FaceForward(a, b), 1)]

(* laws the results obey, whatever the arguments *)
VecLaws(a, b, c, k) ==
    LET x == Cross3(a, b) IN
    /\ Dot3(x, a) = 0 /\ Dot3(x, b) = 0
    /\ x = Neg3(Cross3(b, a))
    /\ Dot3(x, x) = Dot3(a, a) * Dot3(b, b) - Dot3(a, b) * Dot3(a, b)      \* Lagrange
    /\ Cross3(<<1, 0, 0>>, <<0, 1, 0>>) = <<0, 0, 1>>
    /\ Dot3(Add3(a, b), c) = Dot3(a, c) + Dot3(b, c)
    /\ Cross3(Add3(a, b), c) = Add3(Cross3(a, c), Cross3(b, c))
    /\ Sub3(Add3(a, b), b) = a
    /\ Dot3(Scale3(a, k), b) = k * Dot3(a, b)
    /\ \A f \in {FaceForward(a, b)[1]} : Dot3(f, b) >= 0
    /\ Add3(Min3(a, b), Max3(a, b)) = Add3(a, b)
    /\ \A i \in 1..Len(MaxDims(a)) : \A j \in Axes : a[j] <= a[MaxDims(a)[i] + 1]

(* points on a grid of quarters: t, p and q in quarters *)
PtResults(p, q, t) ==
    [lerp |-> V(LAMBDA i : (4 - t) * p[i] + t * q[i]),                     \* in sixteenths
     floor |-> V(LAMBDA i : p[i] \div 4), ceil |-> V(LAMBDA i : -((-p[i]) \div 4))]

(* boxes *)
Box(lo, hi) == <<lo, hi>>
Empty(b) == \E i \in Axes : b[1][i] > b[2][i]
In(b, p) == \A i \in Axes : b[1][i] <= p[i] /\ p[i] <= b[2][i]
InX(b, p) == \A i \in Axes : b[1][i] <= p[i] /\ p[i] < b[2][i]
Hull(ps) == Box(V(LAMBDA i : Min({p[i] : p \in ps})), V(LAMBDA i : Max({p[i] : p \in ps})))
Corners(b) == {b[1], b[2]}
Union(a, b) == Hull(Corners(a) \union Corners(b))
Intersect(a, b) == Box(Max3(a[1], b[1]), Min3(a[2], b[2]))
Overlap(a, b) == ~Empty(Intersect(a, b))
Expand(b, k) == Box(V(LAMBDA i : b[1][i] - k), V(LAMBDA i : b[2][i] + k))
Extent(b) == Sub3(b[2], b[1])

BoxMeasures(b) ==
    LET e == Extent(b) IN
    [diagonal |-> R(e, 1), volume |-> R(e[1] * e[2] * e[3], 3),
     area |-> R(2 * (e[1] * e[2] + e[2] * e[3] + e[3] * e[1]), 2),
     centre2 |-> R(Add3(b[1], b[2]), 1),                                   \* twice the centre
     radius2 |-> R(Dot3(e, e), 2)]                                         \* squared diameter of the sphere
LongestAxes(b) == MaxDims(Extent(b))
\* corner n: bit i of n chooses the side along axis i; up says which side a set bit means
Bit(n, i) == (n \div (2 ^ (i - 1))) % 2
Corner(b, n, up) == V(LAMBDA i : IF (Bit(n, i) = 1) = up THEN b[2][i] ELSE b[1][i])

(* matrices *)
I4 == 1..4
M4(f(_, _)) == [i \in I4 |-> [j \in I4 |-> f(i, j)]]
Ident == M4(LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Zero4 == M4(LAMBDA i, j : 0)
MMul(a, b) == M4(LAMBDA i, j : a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j] + a[i][4] * b[4][j])
MAdd(a, b) == M4(LAMBDA i, j : a[i][j] + b[i][j])
MTr(a) == M4(LAMBDA i, j : a[j][i])
MScale(a, k) == M4(LAMBDA i, j : k * a[i][j])
MaxAbs(a) == Max({Ab(a[i][j]) : i \in I4, j \in I4})

Skip4(n) == CASE n = 1 -> <<2, 3, 4>> [] n = 2 -> <<1, 3, 4>> [] n = 3 -> <<1, 2, 4>> [] n = 4 -> <<1, 2, 3>>
Minor(a, r, c) ==
    LET p == Skip4(r)  q == Skip4(c)
        e(i, j) == a[p[i]][q[j]]
    IN  e(1, 1) * (e(2, 2) * e(3, 3) - e(2, 3) * e(3, 2))
        - e(1, 2) * (e(2, 1) * e(3, 3) - e(2, 3) * e(3, 1))
        + e(1, 3) * (e(2, 1) * e(3, 2) - e(2, 2) * e(3, 1))
Cof(a, r, c) == IF (r + c) % 2 = 0 THEN Minor(a, r, c) ELSE -Minor(a, r, c)
Adj(a) == M4(LAMBDA i, j : Cof(a, j, i))
Det(a) == a[1][1] * Cof(a, 1, 1) + a[1][2] * Cof(a, 1, 2) + a[1][3] * Cof(a, 1, 3) + a[1][4] * Cof(a, 1, 4)
ZeroRow(a) == \E i \in I4 : \A j \in I4 : a[i][j] = 0
ZeroCol(a) == ZeroRow(MTr(a))
IsInverse(a, adj, det) == MMul(a, adj) = MScale(Ident, det) /\ MMul(adj, a) = MScale(Ident, det)
=============================================================================
