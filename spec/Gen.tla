-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Exhaustive exploration of scene texts: every text                       *)
(*     head \o piece_1 \o ... \o piece_n \o tail        (n <= MaxLen)      *)
(* is one behaviour of the specification, where the i-th piece is drawn    *)
(* from PiecesAt(i).  In every state the declarative properties of Scene   *)
(* are checked, and for every tail the text and the outcome the            *)
(* specification demands are printed ("CASE ...") for replay against the   *)
(* implementation.  A state whose text is already rejected is emitted but  *)
(* not extended; RejectFinal is what justifies that.                       *)
(***************************************************************************)
EXTENDS Scene, TLC, Json
CONSTANTS Heads,           \* set of strings
          PiecesAt(_),     \* position -> set of character sequences
          TailsOf(_, _),   \* head, scene state -> set of character sequences
          MaxLen

VARIABLES s,     \* scene state after txt
          txt,   \* characters so far
          h,     \* the head chosen
          n      \* pieces so far
vars == <<s, txt, h, n>>

E(str) == Explode(str)
ES(strs) == {Explode(x) : x \in strs}
Chars(cs) == {<<c>> : c \in cs}

Init == \E p \in Heads : /\ h = p
                         /\ txt = E(p)
                         /\ s = FeedAll(SInit, E(p))
                         /\ n = 0
Extend(p) == /\ ~Dead(s)
             /\ s' = FeedAll(s, p)
             /\ txt' = txt \o p
             /\ n' = n + 1
             /\ UNCHANGED h
Next == n < MaxLen /\ \E p \in PiecesAt(n + 1) : Extend(p)
Spec == Init /\ [][Next]_vars

(* JSON form of outcomes *)
JVal(v) == [t |-> v.t, m |-> (IF v.neg THEN "-" ELSE "") \o Join(v.ds), ex |-> v.ex, q |-> v.q]
JVals(vs) == [i \in 1..Len(vs) |-> JVal(vs[i])]
JPrm(p) == [ty |-> p.ty, name |-> p.name, pos |-> p.pos, vals |-> JVals(p.vals)]
JNode(x) == [d |-> x.d, k |-> x.k, pos |-> x.pos, strs |-> x.strs, nums |-> JVals(x.nums),
             prms |-> [j \in 1..Len(x.prms) |-> JPrm(x.prms[j])]]
JOut(o) == [ok |-> o.ok, pos |-> o.pos, pos2 |-> o.pos2, nodes |-> [i \in 1..Len(o.nodes) |-> JNode(o.nodes[i])]]

Case(t, o) == PrintT("CASE " \o ToJson([i |-> Join(t), o |-> JOut(o)]))

EmitCases == \A x \in TailsOf(h, s) : Case(txt \o x, Outcome(FeedAll(s, x)))

\* End keywords of the blocks that are open, innermost first.
RECURSIVE AutoClose(_)
AutoClose(stk) == IF stk = <<>> THEN ""
                  ELSE " " \o Begin[stk[Len(stk)]] \o AutoClose(SubSeq(stk, 1, Len(stk) - 1))
OpenStack(x) == Closed(x).ps.stk

(* design-level invariants, on every completion of the text *)
OnEnds(P(_)) == P(s) /\ \A x \in TailsOf(h, s) : P(FeedAll(s, x))
InvTypeOK == SceneTypeOK(s)
InvPositions == PositionsOK(s)
InvScene == OnEnds(LAMBDA x : Lossless(x) /\ Structured(x) /\ ParamsOK(x) /\ ArityOK(x))
\* an error is final: no continuation of a rejected text is accepted
RejectFinal == \A x \in TailsOf(h, s) : Dead(s) => ~Outcome(FeedAll(s, x)).ok
=============================================================================
