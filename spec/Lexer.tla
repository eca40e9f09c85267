------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The tokenizer of pbrtrs as a character-level state machine.             *)
(*                                                                         *)
(* A character is a TLA+ string: an ASCII character stands for itself, any *)
(* other character is written "<U+XXXX>".  One LexChar step consumes one   *)
(* character; LexEof ends the text.  A step returns the new lexer state,   *)
(* whose field out holds the tokens completed by that step (none, one, or  *)
(* two: a bracket also ends a numeral).                                    *)
(*                                                                         *)
(* Numbers stay decimal: a numeral denotes +-ds * 10^ex, ds a sequence of  *)
(* digits.  No machine arithmetic is involved, so 64-bit limits and any    *)
(* number of digits are exact.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
\* Characters Unicode calls numeric that are not ASCII digits: they continue a
\* numeral (and an identifier) but never make a valid one.
OtherNumeric == {"<U+0663>", "<U+00BD>", "<U+00B2>", "<U+2167>", "<U+FF11>", "<U+00B9>", "<U+0968>", "<U+2460>", "<U+1D7D8>"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
          "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
          "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
OtherAlpha == {"<U+00E9>", "<U+00DF>", "<U+4E2D>", "<U+03BB>", "<U+2164>", "<U+00AA>", "<U+0130>", "<U+0430>", "<U+FB01>", "<U+1D400>"}
White == {" ", "\t", "\n", "\r", "\f", "<U+000B>", "<U+00A0>", "<U+0085>", "<U+2003>", "<U+2028>", "<U+3000>", "<U+1680>", "<U+2029>", "<U+205F>"}
\* U+2164 (roman numeral five) is both alphabetic and numeric: numeric wins.
Numeric(c) == c \in Digit \/ c \in OtherNumeric \/ c = "<U+2164>"
Alphabetic(c) == c \in Lower \/ c \in Upper \/ c \in OtherAlpha \/ c = "<U+2167>"
Alnum(c) == Alphabetic(c) \/ Numeric(c)
NumStart(c) == c \in {"-", "+", "."} \/ Numeric(c)

(***************************************************************************)
(* Runs.  "<*k*U+XXXX>" is a symbol for k times the same character (or     *)
(* short comment line), so that long texts are explored without writing    *)
(* them out: a run has the class of its base and advances the position k   *)
(* times.  MC_Far checks this acceleration against the written-out text.   *)
(***************************************************************************)
RunLens == {3, 7, 13, 26, 51, 65, 130, 260, 513, 1030, 4099, 32770, 65540, 131075, 1000003}
RunKinds == [sp |-> <<" ", "U+0020">>, tab |-> <<"\t", "U+0009">>, nl |-> <<"\n", "U+000A">>, crlf |-> <<"\n", "U+000D,U+000A">>,
             cmt |-> <<"\n", "U+0023,U+0063,U+000A">>, em |-> <<" ", "U+2003">>, hash |-> <<"#", "U+0023">>,
             a |-> <<"a", "U+0061">>, eacute |-> <<"<U+00E9>", "U+00E9">>, euro |-> <<"@", "U+20AC">>, cjk |-> <<"<U+4E2D>", "U+4E2D">>,
             emoji |-> <<"@", "U+1F600">>]
Run(kind, k) == "<*" \o ToString(k) \o "*" \o RunKinds[kind][2] \o ">"
RunTable == [x \in (DOMAIN RunKinds) \X RunLens |-> [c |-> Run(x[1], x[2]), b |-> RunKinds[x[1]][1], k |-> x[2]]]
Runs == [c \in {RunTable[x].c : x \in DOMAIN RunTable} |-> CHOOSE r \in {RunTable[x] : x \in DOMAIN RunTable} : r.c = c]
IsRun(c) == Len(c) > 9 /\ c \in DOMAIN Runs
Base(c) == IF IsRun(c) THEN Runs[c].b ELSE c
Times(c) == IF IsRun(c) THEN Runs[c].k ELSE 1

NoErr == [is |-> FALSE, pos |-> <<>>]
Err(pos) == [is |-> TRUE, pos |-> pos]      \* pos = <<>>: the message carries no position

DigitVal(d) == CHOOSE n \in 0..9 : <<"0","1","2","3","4","5","6","7","8","9">>[n + 1] = d

Explode(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Join(cs) == FoldLeft(LAMBDA x, y : x \o y, "", cs)

RECURSIVE StripLead(_)
StripLead(ds) == IF Len(ds) > 0 /\ ds[1] = "0" THEN StripLead(Tail(ds)) ELSE ds

RECURSIVE DigitsToInt(_)   \* only for short sequences (TLC integers are 32-bit)
DigitsToInt(ds) == IF ds = <<>> THEN 0
                   ELSE 10 * DigitsToInt(SubSeq(ds, 1, Len(ds) - 1)) + DigitVal(ds[Len(ds)])

RECURSIVE DigitsLeq(_, _)  \* same length
DigitsLeq(a, b) == IF a = <<>> THEN TRUE
                   ELSE LET x == DigitVal(a[1])  y == DigitVal(b[1])
                        IN  x < y \/ (x = y /\ DigitsLeq(Tail(a), Tail(b)))

MaxPos == Explode("9223372036854775807")
MaxNeg == Explode("9223372036854775808")

\* Is the integer +-ds (no leading zeros) a 64-bit signed integer?
InRange(neg, ds) == \/ Len(ds) < 19
                    \/ Len(ds) = 19 /\ DigitsLeq(ds, IF neg THEN MaxNeg ELSE MaxPos)

(***************************************************************************)
(* Numeral values: [t, neg, ds, ex, q].                                    *)
(*   t  "i" integer, "f" float                                             *)
(*   q  "near"   the nearest float (or exactly the integer)                *)
(*      "approx" within rounding of the exponent computation               *)
(*      "wide"   as "approx", but only where the float range allows it     *)
(*      "e..."   times 10 to that fractional power, within rounding        *)
(*      "any"    value left open (huge exponent)                           *)
(***************************************************************************)
Zeros(n) == [i \in 1..n |-> "0"]
Pt(cs) == SelectInSeq(cs, LAMBDA c : c = ".")

IntValue(neg, ds) ==
    LET d == StripLead(ds) IN
    IF d = <<>> THEN [t |-> "i", neg |-> FALSE, ds |-> <<"0">>, ex |-> 0, q |-> "near"]
                ELSE [t |-> "i", neg |-> neg, ds |-> d, ex |-> 0, q |-> "near"]

RECURSIVE StripTrail(_)
StripTrail(v) == IF Len(v.ds) > 0 /\ v.ds[Len(v.ds)] = "0"
                 THEN StripTrail([v EXCEPT !.ds = SubSeq(@, 1, Len(@) - 1), !.ex = @ + 1])
                 ELSE v

\* Canonical decimal: no leading or trailing zeros.
FloatValue(neg, ds, ex, q) ==
    LET v == StripTrail([t |-> "f", neg |-> neg, ds |-> StripLead(ds), ex |-> ex, q |-> q])
    IN  IF v.ds = <<>> THEN [t |-> "f", neg |-> FALSE, ds |-> <<"0">>, ex |-> 0, q |-> q] ELSE v

\* An integer used where a float is expected.
ToFloat(v) == IF v.t = "f" THEN v ELSE FloatValue(v.neg, v.ds, 0, "near")

Good(v) == [ok |-> TRUE, v |-> v, pos |-> <<>>]
Bad(pos) == [ok |-> FALSE, v |-> <<>>, pos |-> pos]

Sign(cs) == Len(cs) > 0 /\ cs[1] = "-"
Unsigned(cs) == IF Sign(cs) THEN Tail(cs) ELSE cs

ParseInt(cs) ==
    LET u == Unsigned(cs) IN
    IF u = <<>> \/ \E i \in 1..Len(u) : u[i] \notin Digit THEN Bad(<<>>)
    ELSE IF InRange(Sign(cs), StripLead(u)) THEN Good(IntValue(Sign(cs), u)) ELSE Bad(<<>>)

\* [-]digits[.digits] with at least one digit, times 10^k
ParseFloat(cs, k, q) ==
    LET u == Unsigned(cs)
        p == Pt(u)
        ip == IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1)
        fp == IF p = 0 THEN <<>> ELSE SubSeq(u, p + 1, Len(u))
        ds == ip \o fp
    IN  IF ds = <<>> \/ \E i \in 1..Len(ds) : ds[i] \notin Digit THEN Bad(<<>>)
        ELSE Good(FloatValue(Sign(cs), ds, k - Len(fp), q))

(***************************************************************************)
(* A numeral has one part, or two separated by 'e': mantissa and exponent, *)
(* each a signed number of its own.                                        *)
(***************************************************************************)
NewPart(pos) == [cs |-> <<>>, isf |-> FALSE, fresh |-> TRUE, pos |-> pos]

RECURSIVE NumValue(_, _)
NumValue(parts, endpos) ==
    LET p == parts[1] IN
    IF Len(parts) = 1
    THEN IF p.cs = <<>> THEN Bad(endpos)
         ELSE IF p.isf THEN ParseFloat(p.cs, 0, "near") ELSE ParseInt(p.cs)
    ELSE LET x == NumValue(Tail(parts), endpos) IN
         IF ~x.ok THEN x
         ELSE IF x.v.t = "f" /\ x.v.ex < 0
         THEN ParseFloat(p.cs, 0, IF Len(x.v.ds) + x.v.ex > 1 THEN "any"
                                  ELSE "e" \o (IF x.v.neg THEN "-" ELSE "") \o Join(x.v.ds) \o "e" \o ToString(x.v.ex))
         ELSE IF x.v.t = "f" \/ x.v.neg \/ p.isf
         THEN IF Len(x.v.ds) + x.v.ex > 3 THEN ParseFloat(p.cs, 0, "any")
              ELSE LET k == DigitsToInt(x.v.ds \o Zeros(x.v.ex)) IN
                   ParseFloat(p.cs, IF x.v.neg THEN -k ELSE k, IF k <= 30 THEN "approx" ELSE IF k <= 280 THEN "wide" ELSE "any")
         ELSE LET m == ParseInt(p.cs) IN
              IF ~m.ok THEN m
              ELSE IF Len(x.v.ds) > 2 THEN Bad(p.pos)
              ELSE LET k == DigitsToInt(x.v.ds) IN
                   IF k > 18 THEN Bad(p.pos)
                   ELSE LET ds == StripLead(m.v.ds \o Zeros(k)) IN
                        IF InRange(m.v.neg, ds) THEN Good(IntValue(m.v.neg, ds)) ELSE Bad(p.pos)

(***************************************************************************)
(* The machine.                                                            *)
(***************************************************************************)
LexInit == [mode |-> "gap", cr |-> FALSE, row |-> 1, col |-> 1, spos |-> <<1, 1>>,
            bpos |-> <<1, 1>>, cs |-> <<>>, parts |-> <<>>, out |-> <<>>, err |-> NoErr]

Here(lx) == <<lx.row, lx.col>>
Adv(lx, c) == IF Base(c) = "\n" THEN [lx EXCEPT !.row = @ + Times(c), !.col = 1] ELSE [lx EXCEPT !.col = @ + Times(c)]
Fail(lx, pos) == [lx EXCEPT !.err = Err(pos)]
NoNum == <<>>
Tok(k, pos, v, cs) == [k |-> k, pos |-> pos, v |-> v, cs |-> cs, n |-> NoNum]
NumTok(pos, n) == [k |-> "num", pos |-> pos, v |-> "", cs |-> <<>>, n |-> n]
Emit(lx, t) == [lx EXCEPT !.out = Append(@, t), !.mode = "gap", !.cs = <<>>, !.parts = <<>>]

EndNum(lx) ==
    LET r == NumValue(lx.parts, Here(lx)) IN
    IF r.ok THEN Emit(lx, NumTok(lx.spos, r.v)) ELSE Fail(lx, r.pos)
EndId(lx) == Emit(lx, Tok("id", lx.spos, Join(lx.cs), lx.cs))
EndStr(lx) == Emit(lx, Tok("str", lx.spos, Join(lx.cs), lx.cs))

OnPart(lx, f(_)) == [lx EXCEPT !.parts = [@ EXCEPT ![Len(lx.parts)] = f(@)]]

\* A character inside a numeral that belongs to it.
NumTakes(lx, c) ==
    LET p == lx.parts[Len(lx.parts)] IN
    (p.fresh /\ c \in {"-", "+"}) \/ Numeric(c) \/ c \in {".", "e"}

NumChar(lx, c) ==
    LET p == lx.parts[Len(lx.parts)] IN
    IF p.fresh /\ c = "-" THEN Adv(OnPart(lx, LAMBDA x : [x EXCEPT !.cs = <<"-">>, !.fresh = FALSE]), c)
    ELSE IF p.fresh /\ c = "+" THEN Adv(OnPart(lx, LAMBDA x : [x EXCEPT !.fresh = FALSE]), c)
    ELSE IF Numeric(c) THEN Adv(OnPart(lx, LAMBDA x : [x EXCEPT !.cs = Append(@, c), !.fresh = FALSE]), c)
    ELSE IF c = "." THEN
         IF p.isf THEN Fail(lx, Here(lx))
         ELSE Adv(OnPart(lx, LAMBDA x : [x EXCEPT !.cs = Append(@, c), !.isf = TRUE, !.fresh = FALSE]), c)
    ELSE \* c = "e"
         IF p.cs = <<>> \/ Len(lx.parts) = 2 THEN Fail(lx, Here(lx))     \* one exponent at most
         ELSE LET l == Adv(lx, c) IN [l EXCEPT !.parts = Append(@, NewPart(Here(l)))]

Gap(lx, c) ==
    LET b == Base(c) IN
    IF b = "#" THEN [Adv(lx, c) EXCEPT !.mode = "comment"]
    ELSE IF c = "\"" THEN [Adv(lx, c) EXCEPT !.mode = "str", !.spos = Here(lx), !.cs = <<>>]
    ELSE IF c \in {"[", "]"} THEN Emit(Adv(lx, c), Tok(c, Here(lx), c, <<>>))
    ELSE IF NumStart(c) THEN NumChar([lx EXCEPT !.mode = "num", !.spos = Here(lx), !.parts = <<NewPart(Here(lx))>>], c)
    ELSE IF b \in White THEN Adv(lx, c)
    ELSE IF Alphabetic(b) THEN [Adv(lx, c) EXCEPT !.mode = "id", !.spos = Here(lx), !.cs = <<c>>]
    ELSE Fail(lx, Here(lx))

LexRaw(lx, c) ==
    IF lx.err.is THEN lx
    ELSE CASE lx.mode = "gap" -> Gap(lx, c)
           [] lx.mode = "comment" -> IF Base(c) = "\n" THEN [Adv(lx, c) EXCEPT !.mode = "gap"] ELSE Adv(lx, c)
           [] lx.mode = "str" ->
                IF c = "\\" THEN [Adv(lx, c) EXCEPT !.mode = "esc", !.bpos = Here(lx)]
                ELSE IF c = "\"" THEN EndStr(Adv(lx, c))
                ELSE [Adv(lx, c) EXCEPT !.cs = Append(@, c)]
           [] lx.mode = "esc" ->
                [Adv(lx, c) EXCEPT !.mode = "str", !.cs = Append(@, IF c = "n" THEN "\n" ELSE c)]
           [] lx.mode = "id" ->
                IF Alnum(Base(c)) THEN [Adv(lx, c) EXCEPT !.cs = Append(@, c)] ELSE Gap(EndId(lx), c)
           [] lx.mode = "num" ->
                IF NumTakes(lx, c) THEN NumChar(lx, c)
                ELSE LET l == EndNum(lx) IN IF l.err.is THEN l ELSE Gap(l, c)

\* CR LF is one newline; a CR waits for its successor.
LexChar(lx0, c) ==
    LET lx == [lx0 EXCEPT !.out = <<>>] IN
    IF lx.cr THEN IF c = "\n" THEN LexRaw([lx EXCEPT !.cr = FALSE], "\n")
                  ELSE LET l == LexRaw([lx EXCEPT !.cr = FALSE], "\r") IN
                       IF c = "\r" THEN [l EXCEPT !.cr = TRUE] ELSE LexRaw(l, c)
    ELSE IF c = "\r" THEN [lx EXCEPT !.cr = TRUE] ELSE LexRaw(lx, c)

LexEof(lx0) ==
    LET lx1 == [lx0 EXCEPT !.out = <<>>]
        lx == IF lx1.cr THEN LexRaw([lx1 EXCEPT !.cr = FALSE], "\r") ELSE lx1 IN
    IF lx.err.is THEN lx
    ELSE CASE lx.mode = "num" -> EndNum(lx)
           [] lx.mode = "id" -> EndId(lx)
           [] lx.mode = "str" -> Fail(lx, Here(lx))
           [] lx.mode = "esc" -> Fail(lx, lx.bpos)
           [] OTHER -> lx

LexTypeOK(lx) ==
    /\ lx.mode \in {"gap", "comment", "num", "str", "esc", "id"}
    /\ lx.row >= 1 /\ lx.col >= 1
    /\ lx.mode = "num" => lx.parts # <<>>
    /\ ~lx.err.is /\ lx.mode # "num" => lx.parts = <<>>
    /\ \/ lx.spos[1] < lx.row
       \/ lx.spos[1] = lx.row /\ lx.spos[2] <= lx.col
=============================================================================
