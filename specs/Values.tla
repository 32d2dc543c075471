------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Abstract values: what a Yason document denotes.                         *)
(*                                                                         *)
(* A byte string is a sequence of numbers 0..255; texts and keys are their *)
(* UTF-8 bytes.  A number is an exact decimal  (-1)^neg * d * 10^e  with d *)
(* a sequence of digits without leading or trailing zeros (empty for 0), so*)
(* equal numbers have equal representations however they were written.  The*)
(* members of an object are kept in key order: TLA+ equality of values is  *)
(* therefore exactly the equality that documents must have.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Null        == [t |-> "null"]
Bool(x)     == [t |-> "bool", b |-> x]
Str(x)      == [t |-> "str", s |-> x]
Arr(x)      == [t |-> "arr", a |-> x]
Num(n,ds,x) == [t |-> "num", neg |-> n, d |-> ds, e |-> x]
Zero        == Num(FALSE, <<>>, 0)
Member(key, val) == [k |-> key, v |-> val]

IsContainer(x) == x.t \in {"arr", "obj"}

(* The name of a type as the item method .type() reports it, and as error  *)
(* messages spell it.                                                      *)
TypeName(x) == CASE x.t = "obj"  -> "object" [] x.t = "arr"  -> "array"
                 [] x.t = "str"  -> "string" [] x.t = "num"  -> "number"
                 [] x.t = "bool" -> "bool"   [] x.t = "null" -> "null"

TypeByte(x) == CASE x.t = "obj" -> 1 [] x.t = "arr" -> 2 [] x.t = "str" -> 3
                 [] x.t = "num" -> 4 [] x.t = "bool" -> 5 [] x.t = "null" -> 6

(* The type of a code, if any. *)
TypeCoded(code) == CASE code = 1 -> "obj" [] code = 2 -> "arr" [] code = 3 -> "str" [] code = 4 -> "num"
                     [] code = 5 -> "bool" [] code = 6 -> "null" [] OTHER -> "none"

(* How a type is displayed on its own. *)
TypeTitle(x) == CASE x.t = "obj"  -> "Object" [] x.t = "arr"  -> "Array"
                  [] x.t = "str"  -> "String" [] x.t = "num"  -> "Number"
                  [] x.t = "bool" -> "Bool"   [] x.t = "null" -> "Null"

(* The limits of a document. *)
MaxDepth    == 100         \* containers inside one another
MaxElements == 65535       \* elements or members of one container
MaxKeyLen   == 65535       \* bytes of a key
MaxString   == 268435455   \* bytes of a string

AllTypes == <<"obj", "arr", "str", "num", "bool", "null">>

-----------------------------------------------------------------------------
(* Byte strings.                                                           *)

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y

(* First position at or after p at which Test holds; Len + 1 if there is none. *)
FirstAt(x, p, Test(_)) ==
    IF p > Len(x) THEN p
    ELSE LET q == SelectInSubSeq(x, p, Len(x), Test) IN IF q = 0 THEN Len(x) + 1 ELSE q

(* In two rounds, because adding one by one to a long list is slow. *)
Join(xs) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, xs)
Concat(xs) == IF Len(xs) <= 256 THEN Join(xs)
              ELSE Join(TLCEval([j \in 1 .. ((Len(xs) + 255) \div 256) |-> Join(SubSeq(xs, 256 * j - 255, Min2(256 * j, Len(xs))))]))

Rep(x, n) == TLCEval([i \in 1..n |-> x])

Nats(n) == TLCEval([i \in 1..n |-> i])

(* Repeats Step on st until st.done.  (Written with folds: recursion as deep as a text is long is slow in TLC.) *)
N4 == Nats(4)   N32 == Nats(32)   N512 == Nats(512)   N65536 == Nats(65536)   N1000000 == Nats(1000000)
Iterate(Step(_), st0) ==
    LET go(st, i) == IF st.done THEN st ELSE Step(st)
        s1 == TLCEval(FoldLeft(go, st0, N4))
        s2 == TLCEval(IF s1.done THEN s1 ELSE FoldLeft(go, s1, N32))
        s3 == TLCEval(IF s2.done THEN s2 ELSE FoldLeft(go, s2, N512))
        s4 == TLCEval(IF s3.done THEN s3 ELSE FoldLeft(go, s3, N65536))
    IN  IF s4.done THEN s4 ELSE FoldLeft(go, s4, N1000000)

LexLess(x, y) ==
    IF x = <<>> \/ y = <<>> THEN x # y /\ x = <<>>
    ELSE IF x[1] # y[1] THEN x[1] < y[1]
    ELSE LET n == Min2(Len(x), Len(y))
             d == SelectInSubSeq(TLCEval([i \in 1..n |-> x[i] # y[i]]), 1, n, LAMBDA z : z)
         IN  IF d = 0 THEN Len(x) < Len(y) ELSE x[d] < y[d]

(* Keys are ordered by length, then byte by byte. *)
KeyLess(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LexLess(x, y))

-----------------------------------------------------------------------------
(* Objects.  Obj takes the members in any order; of two members with the   *)
(* same key the later one wins (the reading of a JSON text).               *)

InKeyOrder(ms) == \A i \in 1 .. (Len(ms) - 1) : KeyLess(ms[i].k, ms[i + 1].k)

Merge(x, y) ==
    LET next(st) ==
            IF st.i > Len(x) THEN [st EXCEPT !.acc = @ \o SubSeq(y, st.j, Len(y)), !.done = TRUE]
            ELSE IF st.j > Len(y) THEN [st EXCEPT !.acc = @ \o SubSeq(x, st.i, Len(x)), !.done = TRUE]
            ELSE IF KeyLess(y[st.j].k, x[st.i].k) THEN [st EXCEPT !.acc = Append(@, y[st.j]), !.j = @ + 1]
            ELSE [st EXCEPT !.acc = Append(@, x[st.i]), !.i = @ + 1]
    IN  Iterate(next, [i |-> 1, j |-> 1, acc |-> <<>>, done |-> FALSE]).acc

(* The members in key order, those with equal keys as they came. *)
RECURSIVE Ordered(_)
Ordered(ms) ==
    IF Len(ms) < 2 \/ InKeyOrder(ms) THEN ms
    ELSE LET m == Len(ms) \div 2 IN
         Merge(TLCEval(Ordered(SubSeq(ms, 1, m))), TLCEval(Ordered(SubSeq(ms, m + 1, Len(ms)))))

LastOfEach(ms) ==
    IF InKeyOrder(ms) THEN ms
    ELSE LET s == TLCEval(Ordered(ms))
             keep == SelectSeq(Nats(Len(s)), LAMBDA i : i = Len(s) \/ s[i].k # s[i + 1].k)
         IN  TLCEval([i \in 1 .. Len(keep) |-> s[keep[i]]])

Obj(ms) == [t |-> "obj", o |-> LastOfEach(ms)]

(* Position of a key among the members, 0 if absent. *)
FindKey(x, key) == LET hit(m) == m.k = key
                   IN  IF x.o = <<>> THEN 0 ELSE SelectInSubSeq(x.o, 1, Len(x.o), hit)

KeysSorted(x) == InKeyOrder(x.o)

(* Children in stored order. *)
Children(x) == CASE x.t = "arr" -> x.a
                 [] x.t = "obj" -> [i \in 1 .. Len(x.o) |-> x.o[i].v]
                 [] OTHER       -> <<>>

RECURSIVE At(_, _)
At(x, pos) == IF pos = <<>> THEN x ELSE At(Children(x)[pos[1] + 1], Tail(pos))

RECURSIVE ValidPos(_, _)
ValidPos(x, pos) == pos = <<>> \/ (pos[1] + 1 \in 1 .. Len(Children(x)) /\ ValidPos(Children(x)[pos[1] + 1], Tail(pos)))

RECURSIVE NestDepth(_)
NestDepth(x) ==
    IF IsContainer(x)
    THEN 1 + FoldLeft(LAMBDA acc, y : Max2(acc, NestDepth(y)), 0, Children(x))
    ELSE 0

(* A value written in preorder: leaves as they are, an array as [t, n] and *)
(* an object as [t, ks], each followed by its children.                    *)
Unflat(tokens) ==
    LET node(x, st) ==
            CASE x.t = "arr" -> <<Arr(SubSeq(st, 1, x.n))>> \o SubSeq(st, x.n + 1, Len(st))
              [] x.t = "obj" -> LET n == Len(x.ks) IN
                                << [t |-> "obj", o |-> TLCEval([i \in 1..n |-> Member(x.ks[i], st[i])])] >> \o SubSeq(st, n + 1, Len(st))
              [] OTHER -> <<x>> \o st
    IN  FoldRight(node, tokens, <<>>)[1]

RECURSIVE WellFormed(_)
WellFormed(x) == /\ x.t = "obj" => KeysSorted(x)
                 /\ \A i \in 1 .. Len(Children(x)) : WellFormed(Children(x)[i])
=============================================================================
