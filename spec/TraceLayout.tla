----------------------------- MODULE TraceLayout -----------------------------
(***************************************************************************)
(* Pairs of recorded parses: texts a and b with outcomes oa and ob.  The   *)
(* specification's lexer reads both; if it finds the same tokens in them,  *)
(* the outcomes must agree in everything but positions and messages.       *)
(***************************************************************************)
EXTENDS Lexer, TLC, Json, IOUtils, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 24
VARIABLES tr, l,
          lx,     \* the two lexers
          ts      \* the tokens they have found
vars == <<tr, l, lx, ts>>
T == Trace[tr]
Bare(t) == <<t.k, t.v, t.n>>
Take(x, c) == LET y == LexChar(x.lx, c) IN [lx |-> y, ts |-> x.ts \o [i \in 1..Len(y.out) |-> Bare(y.out[i])]]
TakeEof(x) == LET y == LexEof(x.lx) IN [lx |-> y, ts |-> x.ts \o [i \in 1..Len(y.out) |-> Bare(y.out[i])]]
Piece(t, k) == SubSeq(t, k + 1, Min({Len(t), k + Chunk}))
Size(t) == Max({Len(t.a), Len(t.b)})

Init == tr \in 1..Len(Trace) /\ l = 0 /\ lx = <<LexInit, LexInit>> /\ ts = << <<>>, <<>> >>
Next == /\ l < Size(T)
        /\ LET x == FoldLeft(Take, [lx |-> lx[1], ts |-> ts[1]], Piece(T.a, l))
               y == FoldLeft(Take, [lx |-> lx[2], ts |-> ts[2]], Piece(T.b, l))
           IN  lx' = <<x.lx, y.lx>> /\ ts' = <<x.ts, y.ts>>
        /\ l' = l + Chunk
        /\ UNCHANGED tr

SamePrm(p, q) == p.ty = q.ty /\ p.name = q.name /\ p.vals = q.vals
SameNode(m, n) == /\ m.d = n.d /\ m.k = n.k /\ m.strs = n.strs /\ m.nums = n.nums
                  /\ Len(m.prms) = Len(n.prms) /\ \A i \in 1..Len(m.prms) : SamePrm(m.prms[i], n.prms[i])
SameOutcome(x, y) == /\ (x.kind = "ok") = (y.kind = "ok")
                     /\ Len(x.nodes) = Len(y.nodes)
                     /\ \A i \in 1..Len(x.nodes) : SameNode(x.nodes[i], y.nodes[i])
Conforms ==
    l >= Size(T) =>
        LET x == TakeEof([lx |-> lx[1], ts |-> ts[1]])
            y == TakeEof([lx |-> lx[2], ts |-> ts[2]])
            same == ~x.lx.err.is /\ ~y.lx.err.is /\ x.ts = y.ts
        IN  IF same THEN /\ PrintT("SAME")
                         /\ \/ SameOutcome(T.oa, T.ob)
                            \/ PrintT("MISMATCH " \o ToJson([trace |-> tr])) /\ FALSE
            ELSE TRUE
Accepted == TLCGet("stats").distinct = FoldLeft(LAMBDA a, t : a + 1 + (Size(t) + Chunk - 1) \div Chunk, 0, Trace)
=============================================================================
