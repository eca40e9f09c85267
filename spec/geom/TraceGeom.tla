------------------------------ MODULE TraceGeom ------------------------------
(***************************************************************************)
(* Validation of recorded executions of the geometry code.  Each line of   *)
(* the trace file is one history: a family (f), the element type (kind)    *)
(* and the events (ev) - operation, arguments, results as integers in the  *)
(* units of the family.  The machine of the family consumes one event per  *)
(* step; its state st is what the specification says the object is now.    *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, st
vars == <<tr, l, st>>
T == Trace[tr]
Ev == T.ev[l]

Near(a, b, tol) == Ab(a - b) <= tol
NearM(a, b, tol) == \A i, j \in I4 : Near(a[i][j], b[i][j], tol)

(* vectors and points: no state *)
VecOK(e) ==
    LET w == VecResults(e.a, e.b, e.k) c == VecChoices(e.a, e.b) IN
    /\ e.pan = <<>>
    /\ \A i \in 1..Len(e.r) : w[e.r[i][1]].v = e.r[i][2]
    /\ \A i \in 1..Len(e.ch) : \E j \in 1..Len(c[e.ch[i][1]].v) : c[e.ch[i][1]].v[j] = e.ch[i][2]
PtOK(e) == LET w == PtResults(e.p, e.q, e.t) IN \A i \in 1..Len(e.r) : w[e.r[i][1]] = e.r[i][2]

(* a box; <<>> when it became empty, Unknown when an empty box was united or expanded,
   of which nothing is said *)
Unknown == <<0>>
BoxStep(b, e) ==
    CASE e.op = "new" -> Hull({e.p, e.q})
      [] e.op = "point" -> Hull({e.p})
      [] b = Unknown \/ (b = <<>> /\ e.op \in {"union_pt", "union", "expand"}) -> Unknown
      [] b = <<>> -> b
      [] e.op = "union_pt" -> Hull(Corners(b) \union {e.p})
      [] e.op = "union" -> Union(b, Hull({e.p, e.q}))
      [] e.op = "intersect" -> LET x == Intersect(b, Hull({e.p, e.q})) IN IF Empty(x) THEN <<>> ELSE x
      [] e.op = "expand" -> Expand(b, e.k)
      [] OTHER -> b
BoxOK(b, e) ==
    LET n == BoxStep(b, e) IN
    /\ e.panic = ""
    /\ n \notin {Unknown, <<>>} => e.box = n
    \* what is left of disjoint boxes is empty, and cutting it leaves it so
    /\ n = <<>> /\ e.op = "intersect" => Empty(e.box)
    /\ e.op = "inside" /\ n # Unknown => e.flags = (IF n = <<>> THEN <<FALSE, FALSE>> ELSE <<In(n, e.p), InX(n, e.p)>>)
    /\ e.op = "overlaps" /\ n \notin {Unknown, <<>>} => e.flags[1] = Overlap(n, Hull({e.p, e.q}))

MeasureOK(e) ==
    LET b == Box(e.lo, e.hi) m == BoxMeasures(b) IN
    /\ e.panic = ""
    /\ e.r.diagonal = m.diagonal.v /\ e.r.volume = m.volume.v /\ e.r.area = m.area.v
    /\ \E i \in 1..Len(LongestAxes(b)) : LongestAxes(b)[i] = e.r.ax
    /\ \E up \in BOOLEAN : e.r.corners = [n \in 1..8 |-> Corner(b, n - 1, up)]

(* relative coordinates in quarters, the centre doubled, the squared diameter *)
RelativeOK(e) ==
    LET b == Box(e.lo, e.hi) x == Extent(b) IN
    /\ e.panic = ""
    /\ e.r.lerp = V(LAMBDA i : 4 * e.lo[i] + e.t[i] * x[i])
    /\ \A i \in Axes : x[i] > 0 => e.r.off[i] = e.t[i]
    /\ e.r.centre = Add3(e.lo, e.hi) /\ e.r.diam = Dot3(x, x)

(* the iteration: the next point *)
GridDone(b, c) == c[1] >= b[3] \/ c[2] >= b[4]
GridStep(b, c) == IF c[1] + 1 < b[3] THEN <<c[1] + 1, c[2]>> ELSE <<b[1], c[2] + 1>>
GridOK(b, c, e) == IF e.end THEN GridDone(b, c) /\ e.stays ELSE ~GridDone(b, c) /\ e.p = c

MatOK(e) == e.mul = MMul(e.a, e.b) /\ e.add = MAdd(e.a, e.b) /\ e.tr = MTr(e.a) /\ e.rows = e.a

(* inverses, in units of 1/u; only matrices whose inverse has entries up to 4 are judged *)
Good(m) == LET d == Det(m) IN d # 0 /\ MaxAbs(Adj(m)) <= 4 * Ab(d)
Inverts(m, x, u, tol) ==
    LET d == Det(m) a == Adj(m) IN
    /\ MaxAbs(x) <= 5 * u
    /\ \A i, j \in I4 : Near(d * x[i][j], u * a[i][j], tol * Ab(d))
InvOK(e) ==
    /\ ZeroRow(e.m) \/ ZeroCol(e.m) => e.refused
    /\ Good(e.m) => ~e.refused /\ Inverts(e.m, e.x, 4096, 4)

(* a transform, in units of 1/256: matrix and inverse as last observed *)
U == 256
Tm(v) == M4(LAMBDA i, j : IF i = j THEN U ELSE IF j = 4 /\ i < 4 THEN U * v[i] ELSE 0)
Dg(f) == M4(LAMBDA i, j : IF i # j THEN 0 ELSE IF i = 4 THEN U ELSE (U * f[i][1]) \div f[i][2])
\* g/f in units of 1/U, rounded down in magnitude
InvG(f) == [i \in 1..3 |-> IF f[i][1] > 0 THEN <<f[i][2], f[i][1]>> ELSE <<-f[i][2], -f[i][1]>>]
MaxCol(m, j) == Max({Ab(m[i][j]) : i \in 1..3})
ColSq(m, j) == m[1][j] * m[1][j] + m[2][j] * m[2][j] + m[3][j] * m[3][j]
XformOK(s, e) ==
    /\ ~e.panic
    /\ e.op = "make" =>
         /\ e.how.k = "translate" => e.m = Tm(e.how.v) /\ e.inv = Tm(Neg3(e.how.v))
         /\ e.how.k = "scale" => e.m = Dg(e.how.v) /\ NearM(e.inv, Dg(InvG(e.how.v)), 1)
         /\ e.how.k = "new" => e.m = MScale(e.how.v, U) /\ (Good(e.how.v) => Inverts(e.how.v, e.inv, U, 2))
    /\ e.op = "inverse" => e.m = s[2] /\ e.inv = s[1]
    /\ e.op = "transpose" => e.m = MTr(s[1]) /\ e.inv = MTr(s[2])
    \* images of a vector, in units of 1/U
    /\ \A i \in Axes : Near(e.im[i], e.m[i][1] * e.v[1] + e.m[i][2] * e.v[2] + e.m[i][3] * e.v[3], 20)
    \* squared lengths of the images of the axes, where the rounding of U leaves no doubt
    /\ (\E j \in Axes : MaxCol(e.m, j) > 300 \/ (MaxCol(e.m, j) <= 300 /\ Ab(ColSq(e.m, j) - U * U) > 1000)) => e.hs
    /\ (\A j \in Axes : MaxCol(e.m, j) <= 300 /\ \E k \in 1..3 : Ab(e.m[k][j]) = U /\ \A q \in (1..3) \ {k} : e.m[q][j] = 0) /\ e.how.k # "new" => ~e.hs
    /\ e.id => e.m = MScale(Ident, U)
    /\ e.m = MScale(Ident, U) /\ e.how.k # "new" => e.id

(* a ray with differentials, in units of 1/64; the state is the product of the factors *)
Base(e, i) == Scale3(IF i <= 2 THEN e.ray.o ELSE e.ray.d, 64)
RayStep(s, e) == IF e.op = "scale" THEN <<s[1] * e.k, s[2] * 2>> ELSE s
RayOK(s, e) ==
    LET n == RayStep(s, e) IN
    /\ ~e.panic
    /\ e.main = <<Scale3(e.ray.o, 64), Scale3(e.ray.d, 64)>>
    /\ e.op # "at" => \A i \in 1..4 : e.aux[i] = Add3(Base(e, i), Scale3(e.off[i], (64 \div n[2]) * n[1]))
    /\ e.op = "at" => e.aux[1] = Add3(Scale3(e.ray.o, 64), Scale3(e.ray.d, 32 * e.k))

(* a vector under a transform and then another *)
Lin(a, v) == V(LAMBDA i : a[i][1] * v[1] + a[i][2] * v[2] + a[i][3] * v[3])
ApplyOK(e) == e.im = Lin(e.m, e.v) /\ e.two = Lin(e.g, Lin(e.m, e.v))

(* extremes of a list, interpolation between its ends (in quarters) *)
HelpOK(e) ==
    /\ \E i \in 1..Len(e.l) : e.min = e.l[i] /\ \A j \in 1..Len(e.l) : e.min <= e.l[j]
    /\ \E i \in 1..Len(e.l) : e.max = e.l[i] /\ \A j \in 1..Len(e.l) : e.max >= e.l[j]
    /\ e.lerp = (4 - e.t) * e.l[1] + e.t * e.l[Len(e.l)]

(* a frame: residuals in the unit of the float width, vectors in 1/10000 *)
FrameOK(e) ==
    /\ ~e.panic
    /\ \A i \in 1..5 : Ab(e.res[i]) <= 20
    /\ \A i \in Axes : Near(Cross3(e.a, e.b)[i], 10000 * e.c[i], 40000)

Start(t) == CASE t.f = "boxhist" -> Box(<<1, 1, 1>>, <<1, 1, 1>>)
              [] t.f = "grid" -> <<t.b[1], t.b[2]>>
              [] t.f = "xform" -> <<Zero4, Zero4>>
              [] t.f = "ray" -> <<1, 1>>
              [] OTHER -> 0
Ok(s, e) == CASE T.f = "vec" -> VecOK(e)
              [] T.f = "pt" -> PtOK(e)
              [] T.f = "boxhist" -> BoxOK(s, e)
              [] T.f = "measure" -> MeasureOK(e)
              [] T.f = "relative" -> RelativeOK(e)
              [] T.f = "grid" -> GridOK(T.b, s, e)
              [] T.f = "mat" -> MatOK(e)
              [] T.f = "inv" -> InvOK(e)
              [] T.f = "xform" -> XformOK(s, e)
              [] T.f = "ray" -> RayOK(s, e)
              [] T.f = "frame" -> FrameOK(e)
              [] T.f = "apply" -> ApplyOK(e)
              [] T.f = "help" -> HelpOK(e)
Step(s, e) == CASE T.f = "boxhist" -> BoxStep(s, e)
                [] T.f = "grid" -> IF e.end THEN s ELSE GridStep(T.b, s)
                [] T.f = "xform" -> <<e.m, e.inv>>
                [] T.f = "ray" -> RayStep(s, e)
                [] OTHER -> s

Init == tr \in 1..Len(Trace) /\ l = 0 /\ st = Start(Trace[tr])
Next == /\ l < Len(T.ev)
        /\ Ok(st, T.ev[l + 1])
        /\ st' = Step(st, T.ev[l + 1])
        /\ l' = l + 1
        /\ UNCHANGED tr
\* a history that cannot go on before its end is not one of the specification
Conforms == l < Len(T.ev) => Ok(st, T.ev[l + 1]) \/ (PrintT("MISMATCH " \o ToJson([trace |-> tr, event |-> l + 1, state |-> st])) /\ FALSE)
Accepted == TLCGet("stats").distinct = FoldLeft(LAMBDA a, t : a + 1 + Len(t.ev), 0, Trace)
=============================================================================
