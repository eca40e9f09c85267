---------------------------- MODULE SceneParser ----------------------------
(***************************************************************************)
(* The parser of pbrtrs as a token-level pushdown machine.                 *)
(*                                                                         *)
(* PStep consumes one token, PEof the end of the text.  The result is the  *)
(* list of directives in source order, each with its depth (the tree in    *)
(* preorder):                                                              *)
(*   [d, k, pos, strs, nums, prms]    prms: sequence of                    *)
(*   [ty, name, pos, vals]            vals: numbers, strings or booleans   *)
(***************************************************************************)
EXTENDS Lexer

NumArgs == [Translate |-> 3, Scale |-> 3, Rotate |-> 4, LookAt |-> 9, Transform |-> 9,
            ConcatTransform |-> 9, TransformTimes |-> 2]
OneStr == {"CoordinateSystem", "CoordSysTransform", "Include"}
PreOptions == {"Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator"}
WorldStrs == [Material |-> 1, Shape |-> 1, LightSource |-> 1, AreaLightSource |-> 1, Texture |-> 3]
Begin == [AttributeBegin |-> "AttributeEnd", TransformBegin |-> "TransformEnd", WorldBegin |-> "WorldEnd"]
BlockKind == [AttributeBegin |-> "AttributeBlock", TransformBegin |-> "TransformBlock", WorldBegin |-> "WorldBlock"]
Ends == {"AttributeEnd", "TransformEnd", "WorldEnd"}

OneOrList == {"integer", "float", "bool", "string"}
ListOnly == {"point2", "vector2", "rgb", "xyz", "blackbody"}
ParamTypes == OneOrList \union ListOnly \union {"spectrum", "texture"}
Arity == [rgb |-> 3, xyz |-> 3, blackbody |-> 2]      \* exactly that many
Pairs == {"point2", "vector2"}

Node(d, k, pos, strs, nums, prms) ==
    [d |-> d, k |-> k, pos |-> pos, strs |-> strs, nums |-> nums, prms |-> prms]
NoNode == Node(0, "", <<>>, <<>>, <<>>, <<>>)
NoPrm == [ty |-> "", name |-> "", pos |-> <<>>, vals |-> <<>>]

PInit == [mode |-> "pre", stk |-> <<>>, nodes |-> <<>>, cur |-> NoNode, want |-> 0,
          prm |-> NoPrm, lpos |-> <<>>, vpos |-> <<>>, err |-> NoErr]

PFail(ps, pos) == [ps EXCEPT !.err = Err(pos)]
Home(ps) == IF ps.stk = <<>> THEN "pre" ELSE "dir"
Finish(ps) == [ps EXCEPT !.nodes = Append(@, ps.cur), !.cur = NoNode, !.mode = Home(ps)]

\* Whitespace-separated words of a parameter declaration.
Words(cs) ==
    LET f == FoldLeft(LAMBDA a, c :
                 IF Base(c) \in White THEN [w |-> IF a.b = "" THEN a.w ELSE Append(a.w, a.b), b |-> ""]
                 ELSE [a EXCEPT !.b = @ \o c],
                 [w |-> <<>>, b |-> ""], cs)
    IN  IF f.b = "" THEN f.w ELSE Append(f.w, f.b)

\* Strings and booleans as values, in the shape of numeral values.
StrVal(v) == [t |-> "s", neg |-> FALSE, ds |-> <<v>>, ex |-> 0, q |-> "near"]
BoolVal(v) == [t |-> "b", neg |-> FALSE, ds |-> <<v>>, ex |-> 0, q |-> "near"]

\* The value a token gives an element of a parameter of type ty, or <<>>.
Elem(ty, tok) ==
    CASE ty = "integer" -> IF tok.k = "num" /\ tok.n.t = "i" THEN <<tok.n>> ELSE <<>>
      [] ty = "bool" -> IF tok.k = "str" /\ tok.v \in {"true", "false"} THEN <<BoolVal(tok.v)>> ELSE <<>>
      [] ty = "string" -> IF tok.k = "str" THEN <<StrVal(tok.v)>> ELSE <<>>
      [] ty = "texture" -> IF tok.k = "str" THEN <<StrVal(tok.v)>> ELSE <<>>
      [] OTHER -> IF tok.k = "num" THEN <<ToFloat(tok.n)>> ELSE <<>>

AddParam(ps, p) == [ps EXCEPT !.cur.prms = Append(@, p), !.prm = NoPrm, !.mode = "params"]

StartParam(ps, tok) ==
    LET w == Words(tok.cs) IN
    IF Len(w) # 2 THEN PFail(ps, tok.pos)
    ELSE IF w[1] \notin ParamTypes THEN PFail(ps, tok.pos)
    ELSE [ps EXCEPT !.mode = "pval", !.prm = [ty |-> w[1], name |-> w[2], pos |-> tok.pos, vals |-> <<>>]]

ParamValue(ps, tok) ==
    LET ty == ps.prm.ty
        v == IF ty = "spectrum" THEN IF tok.k = "str" THEN <<StrVal(tok.v)>> ELSE <<>> ELSE Elem(ty, tok) IN
    IF tok.k = "[" THEN IF ty = "texture" THEN PFail(ps, tok.pos)
                        ELSE [ps EXCEPT !.mode = "plist", !.lpos = tok.pos]
    ELSE IF ty \in ListOnly THEN PFail(ps, tok.pos)
    ELSE IF v = <<>> THEN PFail(ps, tok.pos)
    ELSE AddParam(ps, [ps.prm EXCEPT !.vals = v])

Odd(n) == n % 2 = 1

ListItem(ps, tok) ==
    LET ty == ps.prm.ty
        vs == ps.prm.vals
        n == Len(vs)
        v == Elem(ty, tok)
        exact == ty \in DOMAIN Arity IN
    IF exact /\ n = Arity[ty]
    THEN IF tok.k = "]" THEN AddParam(ps, ps.prm) ELSE PFail(ps, tok.pos)
    ELSE IF v # <<>> THEN [ps EXCEPT !.prm.vals = @ \o v, !.vpos = tok.pos]
    ELSE IF exact \/ n = 0 \/ (ty \in Pairs /\ n = 1) THEN PFail(ps, <<>>)
    ELSE IF ty \in Pairs /\ Odd(n) THEN PFail(ps, ps.vpos)
    ELSE IF tok.k # "]" THEN PFail(ps, tok.pos)
    ELSE IF ty = "spectrum" /\ Odd(n) THEN PFail(ps, ps.lpos)
    ELSE AddParam(ps, ps.prm)

Dir(ps, k, tok) == Node(Len(ps.stk), k, tok.pos, <<>>, <<>>, <<>>)
WithStrs(ps, tok, n, mode) == [ps EXCEPT !.cur = Dir(ps, tok.v, tok), !.want = n, !.mode = mode]

OpenBlock(ps, tok) ==
    [ps EXCEPT !.nodes = Append(@, Dir(ps, BlockKind[tok.v], tok)), !.stk = Append(@, tok.v), !.mode = "dir"]

PreDirective(ps, tok) ==
    LET k == tok.v IN
    IF tok.k # "id" THEN PFail(ps, tok.pos)
    ELSE IF k = "WorldBegin" THEN OpenBlock(ps, tok)
    ELSE IF k = "Identity" THEN Finish([ps EXCEPT !.cur = Dir(ps, k, tok)])
    ELSE IF k \in DOMAIN NumArgs THEN [ps EXCEPT !.cur = Dir(ps, k, tok), !.mode = "nums"]
    ELSE IF k \in OneStr THEN WithStrs(ps, tok, 1, "bare")
    ELSE IF k = "ActiveTransform" THEN [ps EXCEPT !.cur = Dir(ps, k, tok), !.mode = "ident"]
    ELSE IF k \in PreOptions THEN WithStrs(ps, tok, 1, "strs")
    ELSE PFail(ps, tok.pos)

CloseBlock(ps, tok) ==
    LET top == ps.stk[Len(ps.stk)]
        rest == SubSeq(ps.stk, 1, Len(ps.stk) - 1) IN
    IF Begin[top] # tok.v THEN PFail(ps, tok.pos)
    ELSE [ps EXCEPT !.stk = rest, !.mode = IF rest = <<>> THEN "done" ELSE "dir"]

Directive(ps, tok) ==
    LET k == tok.v IN
    IF tok.k # "id" THEN PFail(ps, tok.pos)
    ELSE IF k \in Ends THEN CloseBlock(ps, tok)
    ELSE IF k \in DOMAIN Begin THEN OpenBlock(ps, tok)
    ELSE IF k \in DOMAIN WorldStrs THEN WithStrs(ps, tok, WorldStrs[k], "strs")
    ELSE IF k = "Include" THEN WithStrs(ps, tok, 1, "bare")
    ELSE PFail(ps, tok.pos)

\* The number arguments end at the first token that is not a number.
EndNums(ps) ==
    IF ps.cur.nums = <<>> THEN PFail(ps, <<>>)
    ELSE IF Len(ps.cur.nums) # NumArgs[ps.cur.k] THEN PFail(ps, ps.cur.pos)
    ELSE Finish(ps)

Dispatch(ps, tok) == IF ps.mode = "pre" THEN PreDirective(ps, tok) ELSE Directive(ps, tok)

PStep(ps, tok) ==
    IF ps.err.is THEN ps
    ELSE CASE ps.mode = "done" -> ps
      [] ps.mode \in {"pre", "dir"} -> Dispatch(ps, tok)
      [] ps.mode = "nums" ->
           IF tok.k = "num" THEN [ps EXCEPT !.cur.nums = Append(@, ToFloat(tok.n))]
           ELSE LET p == EndNums(ps) IN IF p.err.is THEN p ELSE Dispatch(p, tok)
      [] ps.mode = "ident" ->
           IF tok.k = "id" THEN Finish([ps EXCEPT !.cur.strs = <<tok.v>>]) ELSE PFail(ps, tok.pos)
      [] ps.mode = "bare" ->
           IF tok.k = "str" THEN Finish([ps EXCEPT !.cur.strs = <<tok.v>>]) ELSE PFail(ps, tok.pos)
      [] ps.mode = "strs" ->
           IF tok.k = "str" THEN [ps EXCEPT !.cur.strs = Append(@, tok.v), !.want = @ - 1,
                                            !.mode = IF ps.want = 1 THEN "params" ELSE "strs"]
           ELSE PFail(ps, tok.pos)
      [] ps.mode = "params" ->
           IF tok.k = "str" THEN StartParam(ps, tok) ELSE Dispatch(Finish(ps), tok)
      [] ps.mode = "pval" -> ParamValue(ps, tok)
      [] ps.mode = "plist" -> ListItem(ps, tok)

\* The end of the text is an error unless the world has been closed.
PEof(ps) ==
    IF ps.err.is \/ ps.mode = "done" THEN ps
    ELSE IF ps.mode = "nums" THEN LET p == EndNums(ps) IN IF p.err.is THEN p ELSE PFail(p, <<>>)
    ELSE IF ps.mode = "plist" /\ ps.prm.ty \in Pairs /\ Odd(Len(ps.prm.vals)) /\ Len(ps.prm.vals) > 1
         THEN PFail(ps, ps.vpos)
    ELSE PFail(ps, <<>>)

PTypeOK(ps) ==
    /\ ps.mode \in {"pre", "dir", "nums", "ident", "bare", "strs", "params", "pval", "plist", "done"}
    /\ \A i \in 1..Len(ps.stk) : ps.stk[i] \in DOMAIN Begin
    /\ ps.mode = "dir" => ps.stk # <<>>
    /\ ps.mode = "pre" \/ ps.mode = "done" => ps.stk = <<>>
=============================================================================
