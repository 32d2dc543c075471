------------------------------ MODULE PathLang ------------------------------
(***************************************************************************)
(* The path language: which texts are paths, which steps they denote, and  *)
(* with which fault and at which position any other text is refused.       *)
(*                                                                         *)
(*   path      ::= ' '* '$' ' '* step*        whitespace after every step  *)
(*   step      ::= '.' key | '.' '*' | '..' key | '[' '*' ']'              *)
(*               | '[' subscript (',' subscript)* ']'                      *)
(*               | '.' ('count'|'size'|'type') '(' ')'     the last step   *)
(*   key       ::= letter (letter|digit)* | '"' (char | escape)* '"'       *)
(*   subscript ::= index | index 'to' index                                *)
(*   index     ::= digits | 'last' | 'last' '-' digits     <= 2147483647   *)
(*                                                                         *)
(* ParsePath(x) is [ok |-> TRUE, steps] or [ok |-> FALSE, kind, pos].      *)
(* The key of a quoted step is the text between the quotes as written.     *)
(***************************************************************************)
EXTENDS Values

Blank == {32, 9, 10, 12, 13}
IsLetter(c) == c \in 65..90 \/ c \in 97..122
IsDig(c) == c \in 48..57

KeyStep(key)  == [s |-> "key", k |-> key]
AnyStep       == [s |-> "any"]
DescStep(key) == [s |-> "desc", k |-> key]
AllStep       == [s |-> "all"]
SubStep(list) == [s |-> "sub", l |-> list]
FnStep(name)  == [s |-> "fn", f |-> name]

Idx(num)  == [last |-> FALSE, n |-> num]
FromEnd(num) == [last |-> TRUE, n |-> num]
One(a)       == [r |-> FALSE, a |-> a]
Span(a, b)  == [r |-> TRUE, a |-> a, b |-> b]

wLast == <<108, 97, 115, 116>>   wTo == <<116, 111>>
wCount == <<99, 111, 117, 110, 116>>   wSize == <<115, 105, 122, 101>>   wType == <<116, 121, 112, 101>>

(* The texts of the faults, as an error message spells them. *)
FaultText(kind) ==
    CASE kind = "dollar"    -> "path must start with a dollar sign ($) character"
      [] kind = "bracket"   -> "missing square bracket in array step"
      [] kind = "subscript" -> "array step contains unexpected characters"
      [] kind = "toolong"   -> "array subscript too long"
      [] kind = "escape"    -> "invalid escape sequence"
      [] kind = "unclosed"  -> "unclosed quoted step"
      [] kind = "key"       -> "key step contains unexpected characters"
      [] kind = "function"  -> "invalid function at the end of path"
      [] kind = "end"       -> "unexpected characters after end of path"
      [] kind = "start"     -> "invalid character at start of step"
      [] kind = "empty"     -> "empty array subscript"

ErrorText(r) == FaultText(r.kind) \o " at position " \o ToString(r.pos)

-----------------------------------------------------------------------------
(* Positions p are 1-based: the next byte is x[p], p - 1 bytes are consumed.*)

Fault(kd, p) == [ok |-> FALSE, kind |-> kd, pos |-> p - 1]
Got(val, p)  == [ok |-> TRUE, v |-> val, next |-> p]

Peek(x, p) == IF p <= Len(x) THEN x[p] ELSE -1
After(x, p) == IF p <= Len(x) THEN p + 1 ELSE p        \* position once the byte at p, if any, is consumed
Skip(x, p) == FirstAt(x, p, LAMBDA c : c \notin Blank)
SkipSpaces(x, p) == FirstAt(x, p, LAMBDA c : c # 32)
Word(x, p, w) == p + Len(w) - 1 <= Len(x) /\ \A i \in 1 .. Len(w) : x[p + i - 1] = w[i]

MaxIndex == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>

(* The digits starting at p. *)
ReadIndex(x, p) ==
    LET q  == FirstAt(x, p, LAMBDA c : ~IsDig(c))
        ds == TLCEval([i \in 1 .. (q - p) |-> x[p + i - 1] - 48])
        z  == FirstAt(ds, 1, LAMBDA c : c # 0)
        sig == SubSeq(ds, z, Len(ds))
    IN  IF Len(sig) > 10 \/ (Len(sig) = 10 /\ LexLess(MaxIndex, sig)) THEN Fault("toolong", q)
        ELSE Got(FoldLeft(LAMBDA acc, c : acc * 10 + c, 0, sig), q)

ReadLastOrIndex(x, p) ==
    IF Word(x, p, wLast)
    THEN LET q == Skip(x, p + 4) IN
         IF Peek(x, q) = 45
         THEN LET d == Skip(x, q + 1) IN
              IF ~IsDig(Peek(x, d)) THEN Fault("subscript", d)
              ELSE LET r == ReadIndex(x, d) IN IF r.ok THEN Got(FromEnd(r.v), r.next) ELSE r
         ELSE IF q > Len(x) THEN Fault("bracket", q)
         ELSE Got(FromEnd(0), q)
    ELSE IF IsDig(Peek(x, p)) THEN LET r == ReadIndex(x, p) IN IF r.ok THEN Got(Idx(r.v), r.next) ELSE r
    ELSE IF p > Len(x) THEN Fault("bracket", p)
    ELSE Fault("subscript", p)

ReadSubscript(x, p) ==
    LET a == ReadLastOrIndex(x, p) IN
    IF ~a.ok THEN a
    ELSE LET q == Skip(x, a.next) IN
         IF ~Word(x, q, wTo) THEN Got(One(a.v), q)
         ELSE LET b == ReadLastOrIndex(x, Skip(x, q + 2)) IN
              IF b.ok THEN Got(Span(a.v, b.v), Skip(x, b.next)) ELSE b

ReadSubscripts(x, p) ==
    LET step(st) ==
            LET r == TLCEval(ReadSubscript(x, st.p)) IN
            IF ~r.ok THEN [st EXCEPT !.fault = r, !.done = TRUE]
            ELSE IF Peek(x, r.next) = 44 THEN [st EXCEPT !.p = Skip(x, r.next + 1), !.acc = Append(@, r.v)]
            ELSE [st EXCEPT !.p = r.next, !.acc = Append(@, r.v), !.done = TRUE]
        z == TLCEval(Iterate(step, [p |-> p, acc |-> <<>>, fault |-> [ok |-> TRUE], done |-> FALSE]))
    IN  IF z.fault.ok THEN Got(SubStep(z.acc), z.p) ELSE z.fault

(* p: after '[' *)
ReadArrayStep(x, p0) ==
    LET p == Skip(x, p0)
        body == IF Peek(x, p) = 42 THEN Got(AllStep, p + 1) ELSE ReadSubscripts(x, p)
    IN  IF p > Len(x) THEN Fault("bracket", p)
        ELSE IF x[p] = 93 THEN Fault("empty", p)
        ELSE IF ~body.ok THEN body
        ELSE LET q == Skip(x, body.next) IN
             IF Peek(x, q) = 93 THEN Got(body.v, q + 1) ELSE Fault("bracket", After(x, q))

Escapable == {98, 102, 110, 114, 116, 34, 47, 92}

(* Position of the closing quote of the key text at p. *)
CloseQuote(x, p) ==
    LET step(st) ==
            LET q == FirstAt(x, st.p, LAMBDA c : c \in {34, 92}) IN
            IF q > Len(x) THEN [st EXCEPT !.r = Fault("unclosed", q), !.done = TRUE]
            ELSE IF x[q] = 34 THEN [st EXCEPT !.r = Got(q, q + 1), !.done = TRUE]
            ELSE IF Peek(x, q + 1) \in Escapable THEN [st EXCEPT !.p = q + 2]
            ELSE [st EXCEPT !.r = Fault("escape", After(x, q + 1)), !.done = TRUE]
    IN  Iterate(step, [p |-> p, r |-> [ok |-> FALSE], done |-> FALSE]).r

(* p: at the opening quote *)
ReadQuoted(x, p) ==
    LET r == CloseQuote(x, p + 1) IN IF r.ok THEN Got(SubSeq(x, p + 1, r.v - 1), r.next) ELSE r

NameEnd(x, p) == FirstAt(x, p, LAMBDA c : ~IsLetter(c) /\ ~IsDig(c))

(* p: after the method name and blanks, at '(' *)
ReadMethod(x, p, name) ==
    LET q == Skip(x, p + 1)
        e == Skip(x, q + 1)
    IN  IF Peek(x, q) # 41 THEN Fault("function", q)
        ELSE IF e <= Len(x) THEN Fault("end", e)
        ELSE IF name = wCount THEN Got(FnStep("count"), e)
        ELSE IF name = wSize THEN Got(FnStep("size"), e)
        ELSE IF name = wType THEN Got(FnStep("type"), e)
        ELSE Fault("function", e)

(* p: after '.' *)
ReadObjectStep(x, p0) ==
    LET p == Skip(x, p0)
        e == NameEnd(x, p)
        q == Skip(x, e)
        name == SubSeq(x, p, e - 1)
    IN  IF Peek(x, p) = 42 THEN Got(AnyStep, p + 1)
        ELSE IF Peek(x, p) = 34 THEN LET r == ReadQuoted(x, p) IN IF r.ok THEN Got(KeyStep(r.v), r.next) ELSE r
        ELSE IF ~IsLetter(Peek(x, p)) THEN Fault("key", p)
        ELSE IF Peek(x, q) = 40 THEN ReadMethod(x, q, name)
        ELSE IF Peek(x, q) \in {46, 91, -1} THEN Got(KeyStep(name), q)
        ELSE Fault("end", q)

(* p: after '..' *)
ReadDescStep(x, p0) ==
    LET p == Skip(x, p0)
        e == NameEnd(x, p)
    IN  IF Peek(x, p) = 34 THEN LET r == ReadQuoted(x, p) IN IF r.ok THEN Got(DescStep(r.v), r.next) ELSE r
        ELSE IF ~IsLetter(Peek(x, p)) THEN Fault("key", p)
        ELSE Got(DescStep(SubSeq(x, p, e - 1)), e)

ReadStep(x, p) ==
    IF x[p] = 91 THEN ReadArrayStep(x, p + 1)
    ELSE IF x[p] # 46 THEN Fault("start", p + 1)
    ELSE IF Peek(x, p + 1) = 46 THEN ReadDescStep(x, p + 2)
    ELSE ReadObjectStep(x, p + 1)

ReadSteps(x, p) ==
    LET step(st) ==
            IF st.p > Len(x) THEN [st EXCEPT !.done = TRUE]
            ELSE LET r == TLCEval(ReadStep(x, st.p)) IN
                 IF r.ok THEN [st EXCEPT !.p = Skip(x, r.next), !.acc = Append(@, r.v)]
                 ELSE [st EXCEPT !.fault = r, !.done = TRUE]
        z == TLCEval(Iterate(step, [p |-> p, acc |-> <<>>, fault |-> [ok |-> TRUE], done |-> FALSE]))
    IN  IF z.fault.ok THEN [ok |-> TRUE, steps |-> z.acc] ELSE z.fault

ParsePath(x) ==
    LET p == SkipSpaces(x, 1) IN
    IF Peek(x, p) # 36 THEN Fault("dollar", After(x, p))
    ELSE ReadSteps(x, SkipSpaces(x, p + 1))

HasMethod(steps) == steps # <<>> /\ steps[Len(steps)].s = "fn"

-----------------------------------------------------------------------------
(* Writing a path: the texts of the grammar, with the given filler between *)
(* tokens.  Used to check that the grammar and ParsePath agree.            *)

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))

IdxText(i, w) == IF ~i.last THEN NatText(i.n)
                 ELSE IF i.n = 0 THEN wLast ELSE wLast \o w \o <<45>> \o w \o NatText(i.n)
SubText(s, w) == IF s.r THEN IdxText(s.a, w) \o (IF w = <<>> THEN <<32>> ELSE w) \o wTo \o (IF w = <<>> THEN <<32>> ELSE w) \o IdxText(s.b, w)
                 ELSE IdxText(s.a, w)
IsName(k) == k # <<>> /\ IsLetter(k[1]) /\ \A i \in DOMAIN k : IsLetter(k[i]) \/ IsDig(k[i])
KeyText(k, quoted) == IF quoted \/ ~IsName(k) THEN <<34>> \o k \o <<34>> ELSE k
FnName(f) == CASE f = "count" -> wCount [] f = "size" -> wSize [] f = "type" -> wType

StepText(st, w, quoted) ==
    CASE st.s = "key"  -> <<46>> \o w \o KeyText(st.k, quoted) \o w
      [] st.s = "any"  -> <<46>> \o w \o <<42>> \o w
      [] st.s = "desc" -> <<46, 46>> \o w \o KeyText(st.k, quoted) \o w
      [] st.s = "all"  -> <<91>> \o w \o <<42>> \o w \o <<93>> \o w
      [] st.s = "sub"  -> <<91>> \o w \o FoldLeftDomain(LAMBDA acc, i :
                              (IF i > 1 THEN acc \o <<44>> \o w ELSE acc) \o SubText(st.l[i], w) \o w, <<>>, st.l) \o <<93>> \o w
      [] st.s = "fn"   -> <<46>> \o w \o FnName(st.f) \o w \o <<40>> \o w \o <<41>> \o w

PathText(steps, w, quoted) == <<36>> \o Concat(TLCEval([i \in 1 .. Len(steps) |-> StepText(steps[i], w, quoted)]))
=============================================================================
