------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON texts: what a text denotes (ReadJson), and how a value is written  *)
(* (Compact, Pretty).                                                      *)
(*                                                                         *)
(* ReadJson(x) is one of                                                   *)
(*   [k |-> "ok", v, depth]     a valid text                               *)
(*   [k |-> "bad"]              not a JSON text                            *)
(* depth is the deepest nesting of containers in the text.  A number that  *)
(* is too large stands as OverflowNum in v.                                *)
(***************************************************************************)
EXTENDS Num

WS == {32, 9, 10, 13}
SkipWS(x, p) == FirstAt(x, p, LAMBDA c : c \notin WS)

IsAt(x, p, w) == p + Len(w) - 1 <= Len(x) /\ \A i \in 1 .. Len(w) : x[p + i - 1] = w[i]

tTrue == <<116, 114, 117, 101>>   tFalse == <<102, 97, 108, 115, 101>>   tNull == <<110, 117, 108, 108>>

-----------------------------------------------------------------------------
(* Reading.  A partial result: [k, v, next, depth]; k = "bad" has no more. *)

JBad == [k |-> "bad"]
JGood(val, next) == [k |-> "ok", v |-> val, next |-> next, depth |-> 0]

HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1

(* The four hex digits at p, -1 if they are not. *)
Hex4(x, p) ==
    IF p + 3 > Len(x) \/ \E i \in 0..3 : HexVal(x[p + i]) < 0 THEN -1
    ELSE HexVal(x[p]) * 4096 + HexVal(x[p + 1]) * 256 + HexVal(x[p + 2]) * 16 + HexVal(x[p + 3])

Utf8(cp) == IF cp < 128 THEN <<cp>>
            ELSE IF cp < 2048 THEN << 192 + cp \div 64, 128 + (cp % 64) >>
            ELSE IF cp < 65536 THEN << 224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64) >>
            ELSE << 240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64) >>

SimpleEscape(c) == CASE c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 102 -> 12 [] c = 114 -> 13
                     [] c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] OTHER -> -1

(* One escape sequence at q: its bytes and the position after it; next = 0 if it is not one. *)
ReadEscape(x, q) ==
    IF q = Len(x) THEN [s |-> <<>>, next |-> 0]
    ELSE IF x[q + 1] # 117
         THEN LET c == SimpleEscape(x[q + 1]) IN IF c < 0 THEN [s |-> <<>>, next |-> 0] ELSE [s |-> <<c>>, next |-> q + 2]
    ELSE LET hi == Hex4(x, q + 2) IN
         IF hi < 0 \/ hi \in 56320..57343 THEN [s |-> <<>>, next |-> 0]
         ELSE IF hi \in 55296..56319
              THEN LET lo == IF IsAt(x, q + 6, <<92, 117>>) THEN Hex4(x, q + 8) ELSE -1 IN
                   IF lo \in 56320..57343
                   THEN [s |-> Utf8(65536 + (hi - 55296) * 1024 + (lo - 56320)), next |-> q + 12]
                   ELSE [s |-> <<>>, next |-> 0]
         ELSE [s |-> Utf8(hi), next |-> q + 6]

(* A string body at p. *)
ReadChars(x, p) ==
    LET step(st) ==
            LET q == FirstAt(x, st.p, LAMBDA c : c < 32 \/ c = 34 \/ c = 92)
                acc == st.acc \o SubSeq(x, st.p, q - 1)
                esc == ReadEscape(x, q)
            IN  IF q > Len(x) THEN [st EXCEPT !.done = TRUE]
                ELSE IF x[q] = 34 THEN [p |-> q + 1, acc |-> acc, done |-> TRUE, good |-> TRUE]
                ELSE IF x[q] # 92 THEN [st EXCEPT !.done = TRUE]
                ELSE IF esc.next = 0 THEN [st EXCEPT !.done = TRUE]
                ELSE [st EXCEPT !.p = esc.next, !.acc = acc \o esc.s]
        r == Iterate(step, [p |-> p, acc |-> <<>>, done |-> FALSE, good |-> FALSE])
    IN  IF r.good THEN JGood(r.acc, r.p) ELSE JBad

ReadString(x, p) == IF p <= Len(x) /\ x[p] = 34 THEN ReadChars(x, p + 1) ELSE JBad

(* End of the JSON number starting at p; 0 if there is none. *)
NumberEnd(x, p) ==
    LET digitsEnd(q) == FirstAt(x, q, LAMBDA c : ~IsDigit(c))
        p0 == IF p <= Len(x) /\ x[p] = 45 THEN p + 1 ELSE p
        p1 == digitsEnd(p0)
        dot == p1 <= Len(x) /\ x[p1] = 46
        p2 == IF dot THEN digitsEnd(p1 + 1) ELSE p1
        ex == p2 <= Len(x) /\ x[p2] \in {69, 101}
        p3 == IF ex /\ p2 < Len(x) /\ x[p2 + 1] \in {43, 45} THEN p2 + 2 ELSE p2 + 1
        p4 == IF ex THEN digitsEnd(p3) ELSE p2
    IN  IF \/ p1 = p0
           \/ p1 > p0 + 1 /\ x[p0] = 48
           \/ dot /\ p2 = p1 + 1
           \/ ex /\ p4 = p3
        THEN 0 ELSE p4

RECURSIVE ReadValue(_, _)

(* A loop over the elements or members of a container whose first one is at p. *)
Listing(p) == [p |-> p, v |-> <<>>, depth |-> 0, done |-> FALSE, good |-> FALSE]
Listed(st, x, item, r, close) ==
    LET q == SkipWS(x, r.next)
        more == [p |-> q + 1, v |-> Append(st.v, item), depth |-> Max2(st.depth, r.depth), done |-> FALSE, good |-> FALSE]
    IN  IF q > Len(x) THEN [st EXCEPT !.done = TRUE]
        ELSE IF x[q] = 44 THEN more
        ELSE IF x[q] = close THEN [more EXCEPT !.done = TRUE, !.good = TRUE]
        ELSE [st EXCEPT !.done = TRUE]

ReadElems(x, p) ==
    LET step(st) == LET r == TLCEval(ReadValue(x, st.p)) IN
                    IF r.k = "bad" THEN [st EXCEPT !.done = TRUE] ELSE Listed(st, x, r.v, r, 93)
        z == TLCEval(Iterate(step, Listing(p)))
    IN  IF z.good THEN [k |-> "ok", v |-> Arr(z.v), next |-> z.p, depth |-> z.depth + 1] ELSE JBad

ReadMembers(x, p) ==
    LET step(st) ==
            LET kr == TLCEval(ReadString(x, SkipWS(x, st.p)))
                c == SkipWS(x, kr.next)
                r == TLCEval(ReadValue(x, c + 1))
            IN  IF kr.k = "bad" THEN [st EXCEPT !.done = TRUE]
                ELSE IF c > Len(x) \/ x[c] # 58 THEN [st EXCEPT !.done = TRUE]
                ELSE IF r.k = "bad" THEN [st EXCEPT !.done = TRUE]
                ELSE Listed(st, x, Member(kr.v, r.v), r, 125)
        z == TLCEval(Iterate(step, Listing(p)))
    IN  IF z.good THEN [k |-> "ok", v |-> Obj(z.v), next |-> z.p, depth |-> z.depth + 1] ELSE JBad

ReadValue(x, p0) ==
    LET p == SkipWS(x, p0)
        empty(q) == q <= Len(x) /\ x[q] = (IF x[p] = 91 THEN 93 ELSE 125)
    IN  IF p > Len(x) THEN JBad
        ELSE IF x[p] = 110 THEN IF IsAt(x, p, tNull) THEN JGood(Null, p + 4) ELSE JBad
        ELSE IF x[p] = 116 THEN IF IsAt(x, p, tTrue) THEN JGood(Bool(TRUE), p + 4) ELSE JBad
        ELSE IF x[p] = 102 THEN IF IsAt(x, p, tFalse) THEN JGood(Bool(FALSE), p + 5) ELSE JBad
        ELSE IF x[p] = 34 THEN LET r == ReadString(x, p) IN IF r.k = "ok" THEN JGood(Str(r.v), r.next) ELSE JBad
        ELSE IF x[p] = 91 \/ x[p] = 123
             THEN LET q == SkipWS(x, p + 1) IN
                  IF empty(q) THEN [k |-> "ok", v |-> IF x[p] = 91 THEN Arr(<<>>) ELSE Obj(<<>>), next |-> q + 1, depth |-> 1]
                  ELSE IF x[p] = 91 THEN ReadElems(x, p + 1) ELSE ReadMembers(x, p + 1)
        ELSE LET e == NumberEnd(x, p) IN
             IF e = 0 THEN JBad
             ELSE JGood(NumOfText(SubSeq(x, p, e - 1)), e)

ReadJson(x) ==
    LET r == TLCEval(ReadValue(x, 1)) IN
    IF r.k = "bad" \/ SkipWS(x, r.next) <= Len(x) THEN JBad ELSE r

RECURSIVE HasOverflow(_)
HasOverflow(x) == x = OverflowNum \/ \E i \in 1 .. Len(Children(x)) : HasOverflow(Children(x)[i])

RECURSIVE HasLong(_)
HasLong(x) == CASE x.t = "str" -> Len(x.s) > MaxString
                [] x.t = "arr" -> \E i \in 1 .. Len(x.a) : HasLong(x.a[i])
                [] x.t = "obj" -> \E i \in 1 .. Len(x.o) : Len(x.o[i].k) > MaxKeyLen \/ HasLong(x.o[i].v)
                [] OTHER -> FALSE
RECURSIVE HasMany(_)
HasMany(x) == Len(Children(x)) > MaxElements \/ \E i \in 1 .. Len(Children(x)) : HasMany(Children(x)[i])

(* Why the document of a text is refused; empty when it is not.            *)
(* Beyond this nesting the JSON reader itself gives up. *)
JsonDepthLimit == 127

RefusalsOf(j) ==
    IF j.k = "bad" THEN {"json"}
    ELSE (IF HasOverflow(j.v) THEN {"over"} ELSE {})
         \cup (IF NestDepth(j.v) > MaxDepth THEN {"deep"} ELSE {})
         \cup (IF j.depth > JsonDepthLimit THEN {"json"} ELSE {})
         \cup (IF HasLong(j.v) THEN {"long"} ELSE {})
         \cup (IF HasMany(j.v) THEN {"many"} ELSE {})

-----------------------------------------------------------------------------
(* Writing. *)

EscapeChar(c) ==
    CASE c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>> [] c = 12 -> <<92, 102>>
      [] c = 13 -> <<92, 114>> [] c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 47 -> <<92, 47>>
      [] c < 32 /\ c \notin {8, 9, 10, 12, 13} ->
            LET hex(h) == IF h < 10 THEN h + 48 ELSE h + 87 IN <<92, 117, 48, 48, hex(c \div 16), hex(c % 16)>>
      [] OTHER -> <<c>>

NeedsEscape(c) == c < 32 \/ c \in {34, 47, 92}

Escaped(s) ==
    LET step(st) ==
            LET q == FirstAt(s, st.p, NeedsEscape)
                acc == st.acc \o SubSeq(s, st.p, q - 1)
            IN  IF q > Len(s) THEN [p |-> q, acc |-> acc, done |-> TRUE]
                ELSE [p |-> q + 1, acc |-> acc \o EscapeChar(s[q]), done |-> FALSE]
    IN  Iterate(step, [p |-> 1, acc |-> <<>>, done |-> FALSE]).acc

StringText(s) == <<34>> \o Escaped(s) \o <<34>>

AsciiDigits(ds) == TLCEval([i \in 1 .. Len(ds) |-> ds[i] + 48])

RECURSIVE IntText(_)
IntText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(IntText(n \div 10), 48 + (n % 10))

(* A text of the number.  Plain notation while it stays short, otherwise   *)
(* scientific; any text of the same value is as good (see SameText).       *)
NumberText(x) ==
    LET n  == Len(x.d)
        sg == IF x.neg THEN <<45>> ELSE <<>>
        ds == AsciiDigits(x.d)
    IN  IF n = 0 THEN <<48>>
        ELSE IF x.e >= 0 /\ n + x.e <= 40 THEN sg \o ds \o Rep(48, x.e)
        ELSE IF x.e < 0 /\ -x.e <= 40
             THEN IF -x.e < n THEN sg \o SubSeq(ds, 1, n + x.e) \o <<46>> \o SubSeq(ds, n + x.e + 1, n)
                  ELSE sg \o <<48, 46>> \o Rep(48, -x.e - n) \o ds
        ELSE LET ex == x.e + n - 1 IN
             sg \o <<ds[1]>> \o (IF n > 1 THEN <<46>> \o Tail(ds) ELSE <<>>) \o <<69>>
                \o (IF ex < 0 THEN <<45>> \o IntText(-ex) ELSE <<43>> \o IntText(ex))

(* The layout is written once; the lexemes of numbers and strings are the  *)
(* texts themselves or, in a skeleton, markers.                            *)
Lexeme(x, skel) == IF skel THEN IF x.t = "num" THEN <<0>> ELSE <<1>>
                   ELSE IF x.t = "num" THEN NumberText(x) ELSE StringText(x.s)

RECURSIVE CompactWith(_, _)
CompactWith(x, skel) ==
    LET list(xs) == Concat(TLCEval([i \in 1 .. Len(xs) |-> (IF i > 1 THEN <<44>> ELSE <<>>) \o xs[i]]))
    IN  CASE x.t = "null" -> tNull
          [] x.t = "bool" -> IF x.b THEN tTrue ELSE tFalse
          [] x.t \in {"num", "str"} -> Lexeme(x, skel)
          [] x.t = "arr" -> <<91>> \o list(TLCEval([i \in 1 .. Len(x.a) |-> CompactWith(x.a[i], skel)])) \o <<93>>
          [] x.t = "obj" -> <<123>> \o list(TLCEval([i \in 1 .. Len(x.o) |->
                                Lexeme(Str(x.o[i].k), skel) \o <<58>> \o CompactWith(x.o[i].v, skel)])) \o <<125>>

NewLine(level) == <<10>> \o Rep(32, 2 * level)

RECURSIVE PrettyWith(_, _, _)
PrettyWith(x, level, skel) ==
    LET item(i, body) == (IF i > 1 THEN <<44>> ELSE <<>>) \o NewLine(level + 1) \o body
        list(xs) == Concat(TLCEval([i \in 1 .. Len(xs) |-> item(i, xs[i])]))
    IN  CASE x.t = "null" -> tNull
          [] x.t = "bool" -> IF x.b THEN tTrue ELSE tFalse
          [] x.t \in {"num", "str"} -> Lexeme(x, skel)
          [] x.t = "arr" -> <<91>> \o list(TLCEval([i \in 1 .. Len(x.a) |-> PrettyWith(x.a[i], level + 1, skel)]))
                            \o NewLine(level) \o <<93>>
          [] x.t = "obj" -> <<123>> \o list(TLCEval([i \in 1 .. Len(x.o) |->
                                Lexeme(Str(x.o[i].k), skel) \o <<32, 58, 32>>
                                \o (IF IsContainer(x.o[i].v) THEN NewLine(level + 1) ELSE <<>>)
                                \o PrettyWith(x.o[i].v, level + 1, skel)]))
                            \o NewLine(level) \o <<125>>

Compact(x) == CompactWith(x, FALSE)
Pretty(x)  == PrettyWith(x, 0, FALSE)
CompactSkeleton(x) == CompactWith(x, TRUE)
PrettySkeleton(x)  == PrettyWith(x, 0, TRUE)

(* A JSON text with every string and number lexeme replaced by its marker. *)
SkeletonOf(x) ==
    LET step(st) ==
            LET q == FirstAt(x, st.p, LAMBDA c : c = 34 \/ c = 45 \/ IsDigit(c))
                acc == st.acc \o SubSeq(x, st.p, q - 1)
            IN  IF q > Len(x) THEN [p |-> q, acc |-> acc, done |-> TRUE]
                ELSE IF x[q] = 34 THEN [p |-> ReadString(x, q).next, acc |-> Append(acc, 1), done |-> FALSE]
                ELSE [p |-> NumberEnd(x, q), acc |-> Append(acc, 0), done |-> FALSE]
    IN  Iterate(step, [p |-> 1, acc |-> <<>>, done |-> FALSE]).acc

(* The string and number lexemes of a JSON text, one after another. *)
LexemesOf(x) ==
    LET step(st) ==
            LET q == FirstAt(x, st.p, LAMBDA c : c = 34 \/ c = 45 \/ IsDigit(c))
                n == IF q > Len(x) THEN q ELSE IF x[q] = 34 THEN ReadString(x, q).next ELSE NumberEnd(x, q)
            IN  IF q > Len(x) THEN [st EXCEPT !.done = TRUE]
                ELSE [p |-> n, acc |-> st.acc \o SubSeq(x, q, n - 1) \o <<0>>, done |-> FALSE]
    IN  Iterate(step, [p |-> 1, acc |-> <<>>, done |-> FALSE]).acc

(* The text x is a compact (pretty) text of the value val: it denotes val  *)
(* and has the prescribed layout.  How numbers and characters are spelled  *)
(* is free.                                                                *)
TextOf(x, val, pretty) ==
    \/ x = (IF pretty THEN Pretty(val) ELSE Compact(val))
    \/ LET r == ReadJson(x) IN
       /\ r.k = "ok" /\ r.v = val
       /\ SkeletonOf(x) = (IF pretty THEN PrettySkeleton(val) ELSE CompactSkeleton(val))
=============================================================================
