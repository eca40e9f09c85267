------------------------------ MODULE MC_Xform ------------------------------
(***************************************************************************)
(* A transform under construction and under a history of inverting and      *)
(* transposing.  A rational matrix is [n, d] (numerators, denominator).     *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json
CONSTANT Depth
VARIABLES how, h, m, minv
vars == <<how, h, m, minv>>
Q(n, d) == [n |-> n, d |-> d]
QuickDepth == 4
DeepDepth == 8
Tm(v) == M4(LAMBDA i, j : IF i = j THEN 1 ELSE IF j = 4 /\ i < 4 THEN v[i] ELSE 0)
Diag(v) == M4(LAMBDA i, j : IF i = j THEN v[i] ELSE 0)
Trans == {<<x, y, z>> : x \in {0, 1, -3}, y \in {0, 2, -5}, z \in {0, 7, -1}}
\* factors f/g
Fs == {<<1, 1>>, <<2, 1>>, <<-1, 1>>, <<1, 4>>, <<-3, 2>>, <<2049, 2048>>, <<2050, 2048>>, <<2047, 2048>>, <<2046, 2048>>}
Few == {<<1, 1>>, <<3, 1>>, <<-1, 2>>}
Scales == {<<x, y, z>> : x \in Fs, y \in Few, z \in Few} \union {<<x, y, z>> : x \in {<<1, 1>>}, y \in Fs, z \in {<<1, 1>>, <<-5, 1>>}} \union {<<x, y, z>> : x \in {<<1, 1>>}, y \in {<<1, 1>>}, z \in Fs}
GoodMats == {Ident, Tm(<<1, 2, 3>>), Diag(<<2, 2, 2, 1>>), Diag(<<1, 1, 1, 2>>),
             <<<<0, 1, 0, 0>>, <<-1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>>>,
             <<<<0, 0, 1, 4>>, <<1, 0, 0, -2>>, <<0, 1, 0, 5>>, <<0, 0, 0, 1>>>>,
             <<<<2, 1, 0, 3>>, <<0, 1, -1, 0>>, <<1, 0, 1, 2>>, <<0, 0, 0, 1>>>>,
             <<<<1, 2, 0, 0>>, <<3, 4, 0, 1>>, <<0, 1, 5, 0>>, <<1, 0, 0, 2>>>>,
             <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 1, 1>>>>,
             <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<1, 0, 0, 1>>>>}
\* the identity with one entry changed, and every choice of signs
One(i, j, k) == M4(LAMBDA r, c : IF r = i /\ c = j THEN k ELSE IF r = c THEN 1 ELSE 0)
Ones == {a \in {One(i, j, k) : i \in I4, j \in I4, k \in {-1, 2, -3, 7}} : Det(a) # 0}
Signs == {Diag(<<x, y, z, w>>) : x \in {1, -1}, y \in {1, -1}, z \in {1, -1}, w \in {1, -1, 2, -5}}
\* rational ones: rotations, a shear whose columns but not rows have unit length, and its like
QMats == {Q(<<<<3, -4, 0, 0>>, <<4, 3, 0, 0>>, <<0, 0, 5, 0>>, <<0, 0, 0, 5>>>>, 5),
          Q(<<<<5, 0, 0, 10>>, <<0, 3, 4, -5>>, <<0, -4, 3, 15>>, <<0, 0, 0, 5>>>>, 5),
          Q(<<<<5, 3, 0, 0>>, <<0, 4, 0, 0>>, <<0, 0, 5, 0>>, <<0, 0, 0, 5>>>>, 5),
          Q(<<<<5, 0, 0, 0>>, <<0, 5, 3, 0>>, <<0, 0, 4, 0>>, <<0, 0, 0, 5>>>>, 5),
          Q(<<<<5, 0, 3, 0>>, <<0, 5, 0, 0>>, <<0, 0, 4, 0>>, <<0, 0, 0, 5>>>>, 5),
          Q(<<<<1, 2, 2, 0>>, <<2, 1, -2, 0>>, <<2, -2, 1, 0>>, <<0, 0, 0, 3>>>>, 3),
          Q(<<<<1, 2, 2, 1>>, <<2, 1, -2, 4>>, <<-4, 4, -2, 2>>, <<0, 0, 0, 3>>>>, 3),
          Q(<<<<2, 0, 0, 0>>, <<0, 2, 0, 0>>, <<0, 0, 2, 0>>, <<1, 0, 0, 2>>>>, 2),
          Q(<<<<2, 0, 0, 0>>, <<0, 2, 0, 0>>, <<0, 0, 2, 0>>, <<0, 0, 0, 1>>>>, 2)}
\* the identity with an entry (i, j) off by s*2^-e
Nears == {<<i, j, s, e>> : i \in I4, j \in I4, s \in {1, -1}, e \in {9, 10, 11, 12, 15, 20, 22}}
\* scaling by powers of two of any size: the diagonal holds <<sign, exponent>> (the driver demands it exactly)
Es == {0, 1, -30, 60, -60, 100, -100}
Powers == {<<<<sx, x>>, <<1, y>>, <<sz, z>>>> : sx \in {1, -1}, sz \in {1, -1}, x \in Es, y \in Es, z \in Es}
PowM(x, k) == [pow |-> [i \in 1..3 |-> <<x[i][1], k * x[i][2]>>]]
ScaleM(f) == LET d == f[1][2] * f[2][2] * f[3][2] IN
             Q(Diag(<<f[1][1] * (d \div f[1][2]), f[2][1] * (d \div f[2][2]), f[3][1] * (d \div f[3][2]), d>>), d)
InvF(f) == [i \in 1..3 |-> IF f[i][1] > 0 THEN <<f[i][2], f[i][1]>> ELSE <<-f[i][2], -f[i][1]>>]
Sgn(q) == IF q.d < 0 THEN Q(MScale(q.n, -1), -q.d) ELSE q

Init == /\ h = <<>>
        /\ \/ \E v \in Trans : how = [k |-> "translate", v |-> v] /\ m = Q(Tm(v), 1) /\ minv = Q(Tm(Neg3(v)), 1)
           \/ \E f \in Scales : how = [k |-> "scale", v |-> f] /\ m = ScaleM(f) /\ minv = ScaleM(InvF(f))
           \/ \E q \in QMats : /\ how = [k |-> "newq", v |-> q] /\ m = q
                               /\ minv = Sgn(Q(MScale(Adj(q.n), q.d), Det(q.n)))
           \/ \E x \in Nears : how = [k |-> "near", v |-> x] /\ m = Q(Ident, 1) /\ minv = Q(Ident, 1)   \* up to rounding: see NearId, NearScale
           \/ \E x \in Powers : how = [k |-> "pow", v |-> x] /\ m = PowM(x, 1) /\ minv = PowM(x, -1)
           \/ \E a \in GoodMats \union Ones \union Signs : how = [k |-> "new", v |-> a] /\ m = Q(a, 1) /\ minv = Sgn(Q(Adj(a), Det(a)))
TrQ(q) == IF how.k = "pow" THEN q ELSE Q(MTr(q.n), q.d)
Invert == h' = Append(h, "inverse") /\ m' = minv /\ minv' = m
Transp == h' = Append(h, "transpose") /\ m' = TrQ(m) /\ minv' = TrQ(minv)
Next == Len(h) < (IF how.k = "near" THEN 1 ELSE IF how.k = "pow" THEN 2 ELSE Depth) /\ (Invert \/ Transp) /\ UNCHANGED how

\* entries of a product of 2048ths do not fit 32 bits: such scalings are diagonal
Fine(q) == \A i, j \in I4 : Ab(q.n[i][j]) < 10000
Carries == IF how.k = "pow" THEN \A i \in 1..3 : m.pow[i][1] * minv.pow[i][1] = 1 /\ m.pow[i][2] + minv.pow[i][2] = 0
           ELSE IF Fine(m) /\ Fine(minv) /\ m.d < 1000 /\ minv.d < 1000
           THEN MMul(m.n, minv.n) = MScale(Ident, m.d * minv.d)
           ELSE how.k = "scale"
\* two powers of two: (2^e + s)^2 against 2^2e (1 +- 1/1000), in integers that fit
NearOK == how.k = "near" /\ how.v[4] < 15 => LET p == 2 ^ how.v[4] IN
            (Ab((p + how.v[3]) * (p + how.v[3]) - p * p) * 10 > (p * p) \div 100) = (how.v[4] < 11)
Even(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x}) % 2 = 0
\* inverting twice and transposing twice are nothing; the two commute
Parity == how.k = "new" /\ Even(h, "inverse") => m = (IF Even(h, "transpose") THEN Q(how.v, 1) ELSE TrQ(Q(how.v, 1)))

IsId == IF how.k = "pow" THEN \A i \in 1..3 : m.pow[i] = <<1, 0>> ELSE how.k # "near" /\ m.n = MScale(Ident, m.d)
\* squared length of the image of axis j against 1 +- 1/1000, as a reduced fraction
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Col(j) == <<m.n[1][j], m.n[2][j], m.n[3][j]>>
OffBy(j) ==
    LET c0 == Col(j)
        g == Gcd(Gcd(Gcd(m.d, Ab(c0[1])), Ab(c0[2])), Ab(c0[3]))
        c == V(LAMBDA i : Ab(c0[i]) \div g)
        d == m.d \div g
    IN  MaxComp(c) > 2 * d \/ Ab(Dot3(c, c) - d * d) > (d * d) \div 1000
\* (1 + x)^2 for x = +-2^-e is within 0.1% of 1 exactly from e = 11 on; an entry off the diagonal adds only x^2
NearScale == how.v[1] = how.v[2] /\ how.v[1] < 4 /\ how.v[4] < 11
HasScale == IF how.k = "pow" THEN \E i \in 1..3 : m.pow[i][2] # 0 ELSE IF how.k = "near" THEN NearScale ELSE \E j \in Axes : OffBy(j)
Emit == PrintT("CASE " \o ToJson([f |-> "xform", how |-> how, h |-> h, m |-> m, inv |-> minv, id |-> IsId, hs |-> HasScale]))
=============================================================================
