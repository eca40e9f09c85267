------------------------------- MODULE Scene -------------------------------
(***************************************************************************)
(* Lexer and parser composed: the meaning of a scene text.                 *)
(*                                                                         *)
(* The scene state is [lx, ps]; toks (all tokens so far) and raw (all      *)
(* characters so far, CR LF joined) are ghosts from which the declarative  *)
(* properties re-derive what the operational machines computed.            *)
(***************************************************************************)
EXTENDS SceneParser, FiniteSets

SInit == [lx |-> LexInit, ps |-> PInit, toks |-> <<>>, raw |-> <<>>]

Give(s, l) == [s EXCEPT !.lx = [l EXCEPT !.out = <<>>],
                        !.ps = FoldLeft(PStep, s.ps, l.out),
                        !.toks = @ \o l.out]

\* CR LF counts as the single character LF.
GhostChar(raw, c) == IF c = "\n" /\ raw # <<>> /\ raw[Len(raw)] = "\r"
                     THEN [raw EXCEPT ![Len(raw)] = "\n"] ELSE Append(raw, c)

Feed(s, c) == LET r == Give(s, LexChar(s.lx, c)) IN [r EXCEPT !.raw = GhostChar(s.raw, c)]
FeedAll(s, cs) == FoldLeft(Feed, s, cs)

Closed(s) == LET r == Give(s, LexEof(s.lx)) IN IF r.lx.err.is THEN r ELSE [r EXCEPT !.ps = PEof(r.ps)]

\* What the caller of the parser observes if the text ends here.  An error in
\* the tokens comes before any error of the parser.
Outcome(s) ==
    LET c == Closed(s) IN
    \* pos2: where a parser that reads tokens on demand would have stopped already
    IF c.lx.err.is THEN [ok |-> FALSE, pos |-> c.lx.err.pos, pos2 |-> c.ps.err.pos, nodes |-> <<>>]
    ELSE IF c.ps.err.is THEN [ok |-> FALSE, pos |-> c.ps.err.pos, pos2 |-> <<>>, nodes |-> <<>>]
    ELSE [ok |-> TRUE, pos |-> <<>>, pos2 |-> <<>>, nodes |-> c.ps.nodes]

Dead(s) == s.lx.err.is \/ s.ps.err.is

(***************************************************************************)
(* Declarative properties of the composed machine, independent of how the  *)
(* machine computes its result.                                            *)
(***************************************************************************)

\* C05: row and column of a token are those of its first character.
\* LineEnds: offsets of the newlines; line r runs from LineEnds[r-1]+1 to LineEnds[r].
LineEnds(raw) == SetToSortSeq({i \in 1..Len(raw) : raw[i] = "\n"}, LAMBDA a, b : a < b)
LineStart(ends, r) == IF r = 1 THEN 1 ELSE ends[r - 1] + 1
\* the offset a position names, 0 if there is no such place (the end of the text included)
OffsetOf(raw, ends, pos) ==
    IF pos[1] < 1 \/ pos[1] > Len(ends) + 1 \/ pos[2] < 1 THEN 0
    ELSE LET o == LineStart(ends, pos[1]) + pos[2] - 1
             last == IF pos[1] <= Len(ends) THEN ends[pos[1]] ELSE Len(raw) + 1
         IN  IF o <= last THEN o ELSE 0

PositionsOK(s) ==
    LET ends == LineEnds(s.raw)
        offs == [i \in 1..Len(s.toks) |-> OffsetOf(s.raw, ends, s.toks[i].pos)] IN
    /\ \A i \in 1..Len(s.toks) :
          /\ offs[i] \in 1..Len(s.raw)
          /\ LET c == s.raw[offs[i]] IN
             CASE s.toks[i].k = "str" -> c = "\""
               [] s.toks[i].k = "num" -> NumStart(c)
               [] s.toks[i].k = "id" -> c = s.toks[i].cs[1]
               [] OTHER -> c = s.toks[i].k
    /\ \A i \in 1..(Len(s.toks) - 1) : offs[i] < offs[i + 1]
    /\ ~s.lx.cr /\ ~s.lx.err.is => OffsetOf(s.raw, ends, Here(s.lx)) = Len(s.raw) + 1
    \* an error points into the text or just past its end
    /\ s.lx.err.is /\ s.lx.err.pos # <<>> => OffsetOf(s.raw, ends, s.lx.err.pos) # 0
    /\ s.ps.err.is /\ s.ps.err.pos # <<>> => \E i \in 1..Len(s.toks) : s.toks[i].pos = s.ps.err.pos

\* C06, C08, C10: nothing is lost, invented or reordered.  Unparse is the token
\* sequence of a list of directives (values abstracted to what a reader sees).
NumShape(n) == <<"num", n.neg, n.ds, n.ex>>
TokShape(t) == CASE t.k = "num" -> NumShape(ToFloat(t.n))
                 [] OTHER -> <<t.k, t.v>>
ValShape(v) == IF v.t \in {"s", "b"} THEN <<"str", v.ds[1]>> ELSE NumShape(ToFloat(v))

Keyword(k) == IF k = "AttributeBlock" THEN "AttributeBegin" ELSE IF k = "TransformBlock" THEN "TransformBegin"
              ELSE IF k = "WorldBlock" THEN "WorldBegin" ELSE k
IsBlock(k) == k \in {"AttributeBlock", "TransformBlock", "WorldBlock"}

NonBracket(ts) == SelectSeq(ts, LAMBDA t : t.k \notin {"[", "]"})

UnparseParam(p) ==
    <<<<"decl", p.ty, p.name>>>> \o
    [i \in 1..Len(p.vals) |-> ValShape(p.vals[i])]
UnparseNode(n) ==
    <<<<"id", Keyword(n.k)>>>>
    \o [i \in 1..Len(n.strs) |-> IF n.k = "ActiveTransform" THEN <<"id", n.strs[i]>> ELSE <<"str", n.strs[i]>>]
    \o [i \in 1..Len(n.nums) |-> NumShape(n.nums[i])]
    \o FoldLeft(LAMBDA a, p : a \o UnparseParam(p), <<>>, n.prms)

\* End keywords are implied by the depths: closing (a, d) ends the blocks of
\* nodes[1..] still open that are at depth >= d.
RECURSIVE UnparseFrom(_, _, _)
UnparseFrom(nodes, i, open) ==
    IF i > Len(nodes)
    THEN [j \in 1..Len(open) |-> <<"id", Begin[Keyword(open[Len(open) + 1 - j])]>>]
    ELSE LET n == nodes[i] IN
         IF Len(open) > n.d
         THEN <<<<"id", Begin[Keyword(open[Len(open)])]>>>> \o UnparseFrom(nodes, i, SubSeq(open, 1, Len(open) - 1))
         ELSE UnparseNode(n) \o UnparseFrom(nodes, i + 1, IF IsBlock(n.k) THEN Append(open, n.k) ELSE open)

\* Tokens up to the one that closed the world, brackets dropped; a parameter
\* declaration is known by its position.
DeclPositions(nodes) == UNION {{nodes[i].prms[j].pos : j \in 1..Len(nodes[i].prms)} : i \in 1..Len(nodes)}
ShapeOf(t, decls) == IF t.k = "str" /\ t.pos \in decls THEN LET w == Words(t.cs) IN <<"decl", w[1], w[2]>> ELSE TokShape(t)

WorldLen(s) ==   \* number of tokens until the parser is done
    FoldLeft(LAMBDA a, t : IF a.ps.mode = "done" THEN a ELSE [ps |-> PStep(a.ps, t), n |-> a.n + 1],
             [ps |-> PInit, n |-> 0], s.toks).n

Lossless(s) ==
    LET c == Closed(s)  o == Outcome(s) IN
    o.ok => LET nodes == c.ps.nodes
                decls == DeclPositions(nodes)
                ts == NonBracket(SubSeq(c.toks, 1, WorldLen(c)))
            IN  UnparseFrom(nodes, 1, <<>>) = [i \in 1..Len(ts) |-> ShapeOf(ts[i], decls)]

\* C08/C09: an accepted scene has exactly one world, at depth 0 and after all
\* pre-world directives, and depths change by at most one level down.
Structured(s) ==
    LET o == Outcome(s) IN
    o.ok => LET ns == o.nodes
                w == CHOOSE i \in 1..Len(ns) : ns[i].k = "WorldBlock" /\ ns[i].d = 0
            IN  /\ \E i \in 1..Len(ns) : ns[i].k = "WorldBlock" /\ ns[i].d = 0
                /\ \A i \in 1..Len(ns) : ns[i].d = 0 <=> i <= w
                /\ \A i \in 2..Len(ns) : ns[i].d <= ns[i-1].d + (IF IsBlock(ns[i-1].k) THEN 1 ELSE 0)
                /\ \A i \in 1..w : ns[i].k = "WorldBlock" => i = w

\* C06/C07: the parameters of an accepted scene are well-formed.
ParamsOK(s) ==
    LET o == Outcome(s) IN
    o.ok => \A i \in 1..Len(o.nodes) : \A j \in 1..Len(o.nodes[i].prms) :
              LET p == o.nodes[i].prms[j] IN
              /\ p.ty \in ParamTypes /\ p.name # "" /\ p.vals # <<>>
              /\ p.ty \in DOMAIN Arity => Len(p.vals) = Arity[p.ty]
              /\ p.ty \in Pairs => ~Odd(Len(p.vals))
              /\ p.ty = "spectrum" /\ Odd(Len(p.vals)) => Len(p.vals) = 1
              /\ p.ty = "texture" => Len(p.vals) = 1

\* C10
ArityOK(s) ==
    LET o == Outcome(s) IN
    o.ok => \A i \in 1..Len(o.nodes) :
              LET n == o.nodes[i] IN
              /\ (n.k \in DOMAIN NumArgs => Len(n.nums) = NumArgs[n.k])
              /\ (n.k \notin DOMAIN NumArgs => n.nums = <<>>)

\* The scene apart from positions (C04).
Meaning(s) ==
    LET o == Outcome(s) IN
    [ok |-> o.ok,
     nodes |-> [i \in 1..Len(o.nodes) |->
                  LET n == o.nodes[i] IN
                  [n EXCEPT !.pos = <<>>,
                            !.prms = [j \in 1..Len(n.prms) |-> [n.prms[j] EXCEPT !.pos = <<>>]]]]]

SceneTypeOK(s) == LexTypeOK(s.lx) /\ PTypeOK(s.ps)
=============================================================================
