----------------------------- MODULE TraceScene -----------------------------
(***************************************************************************)
(* Validation of recorded executions: each line of the trace file is one   *)
(* call of the implementation's parser - the characters of the text (c)    *)
(* and what the call returned (o).  The specification consumes the         *)
(* characters with its own actions; when the text ends, its outcome must   *)
(* agree with the recorded one in the aspects of the property checked.     *)
(***************************************************************************)
EXTENDS Scene, TLC, Json, IOUtils, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspects == LET a == ndJsonDeserialize(IOEnv.ASPECTS)[1] IN {a[i] : i \in 1..Len(a)}
Chunk == 24      \* characters consumed per step

VARIABLES tr,    \* which call
          l,     \* characters consumed
          s      \* scene state
vars == <<tr, l, s>>

Text == Trace[tr].c

\* Scene!Feed without the ghosts
Step1(x, c) == LET r == Give(x, LexChar(x.lx, c)) IN [r EXCEPT !.toks = <<>>]

Init == tr \in 1..Len(Trace) /\ l = 0 /\ s = SInit
Next == /\ l < Len(Text)
        /\ LET m == Min({Chunk, Len(Text) - l}) IN
           /\ s' = FoldLeft(Step1, s, SubSeq(Text, l + 1, l + m))
           /\ l' = l + m
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

(* agreement of an outcome with a recorded one *)
SameVal(a, r) ==
    /\ a.t = r.t
    /\ a.t \in {"s", "b"} => a.ds = r.ds
    /\ a.t = "i" => a.neg = r.neg /\ a.ds = r.ds
    \* a float shows all its digits if it has few enough of them
    /\ a.t = "f" /\ a.q = "near" /\ Len(a.ds) <= 6 /\ a.ex + Len(a.ds) \in -30..30 =>
          a.neg = r.neg /\ a.ds = r.ds /\ a.ex = r.ex
SameVals(as, rs) == Len(as) = Len(rs) /\ \A i \in 1..Len(as) : SameVal(as[i], rs[i])

\* The implementation keeps parameters by type.
Buckets == <<{"bool"}, {"integer"}, {"float"}, {"point2"}, {"vector2"},
             {"rgb", "xyz", "blackbody", "spectrum"}, {"string"}, {"texture"}>>
Bucketed(ps) == FoldLeft(LAMBDA acc, b : acc \o SelectSeq(ps, LAMBDA p : p.ty \in b), <<>>, Buckets)

Has(x) == x \in Aspects
SameParam(p, r) ==
    /\ Has("params") => p.ty = r.ty /\ p.name = r.name /\ Len(p.vals) = Len(r.vals)
    /\ Has("params") /\ Has("pnum") => SameVals(p.vals, r.vals)
    /\ Has("pnum") /\ ~Has("params") => SameVals(SelectSeq(p.vals, LAMBDA v : v.t \in {"i", "f"}),
                                                 SelectSeq(r.vals, LAMBDA v : v.t \in {"i", "f"}))
    /\ Has("pstr") /\ ~Has("params") => SameVals(SelectSeq(p.vals, LAMBDA v : v.t = "s"),
                                                 SelectSeq(r.vals, LAMBDA v : v.t = "s"))
    /\ Has("pos") => p.pos = r.pos
SameNode(a, r) ==
    /\ Has("strs") => a.strs = r.strs
    /\ Has("nums") => SameVals(a.nums, r.nums)
    /\ Has("pos") => a.pos = r.pos
    /\ LET ps == Bucketed(a.prms) IN
       /\ Has("params") => Len(ps) = Len(r.prms)
       /\ Len(ps) = Len(r.prms) => \A i \in 1..Len(ps) : SameParam(ps[i], r.prms[i])
SameTree(ns, rs) == Len(ns) = Len(rs) /\ \A i \in 1..Len(ns) : ns[i].d = rs[i].d /\ ns[i].k = rs[i].k

Agree(o, r) ==
    /\ r.kind # "panic"
    /\ Has("rejected") /\ o.ok => r.kind = "ok"
    /\ Has("accepted") /\ ~o.ok => r.kind # "ok"
    /\ o.ok /\ r.kind = "ok" =>
          /\ Has("tree") => SameTree(o.nodes, r.nodes)
          /\ SameTree(o.nodes, r.nodes) => \A i \in 1..Len(o.nodes) : SameNode(o.nodes[i], r.nodes[i])
    /\ Has("errpos") /\ ~o.ok /\ r.kind = "err" /\ r.pos # <<>> =>
          (o.pos = <<>> /\ o.pos2 = <<>>) \/ r.pos \in {o.pos, o.pos2}

Conforms ==
    l = Len(Text) =>
        LET o == Outcome(s) IN
        \/ Agree(o, Trace[tr].o) /\ Trace[tr].same
        \/ PrintT("MISMATCH " \o ToJson([trace |-> tr, ok |-> o.ok, pos |-> o.pos, nodes |-> o.nodes])) /\ FALSE

TypeOK == SceneTypeOK(s)

\* Every recorded call was consumed to its last character.
Steps(k) == (k + Chunk - 1) \div Chunk
Accepted == TLCGet("stats").distinct = FoldLeft(LAMBDA a, t : a + 1 + Steps(Len(t.c)), 0, Trace)
=============================================================================
