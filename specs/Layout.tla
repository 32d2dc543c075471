------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The documented binary format, twice: Encode writes a value the way the  *)
(* encoder does, DecodeDoc reads any byte string and accepts it exactly    *)
(* when it is a document of the grammar with no gap and no trailing byte.  *)
(*                                                                         *)
(* DecodeDoc does not prescribe the order in which the out-of-line values  *)
(* or the key-values are laid out (the grammar does not either), only that *)
(* they tile the space after the entry table.                              *)
(***************************************************************************)
EXTENDS Num, FiniteSets

LE16(x) == << x % 256, x \div 256 >>
LE32(x) == << x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216 >>


Varint(x) == IF x < 128 THEN <<x>>
             ELSE IF x < 16384 THEN << (x % 128) + 128, x \div 128 >>
             ELSE IF x < 2097152 THEN << (x % 128) + 128, ((x \div 128) % 128) + 128, x \div 16384 >>
             ELSE << (x % 128) + 128, ((x \div 128) % 128) + 128, ((x \div 16384) % 128) + 128, x \div 2097152 >>

-----------------------------------------------------------------------------
(* Writing.  `Scalar payload` is what follows the type byte.               *)

RECURSIVE EncodeBody(_)
Encode(x) == <<TypeByte(x)>> \o EncodeBody(x)

(* The 4 bytes after the type in the entry of an array element. *)
Inline(x, offset) == CASE x.t = "null" -> <<0, 0, 0, 0>>
                       [] x.t = "bool" -> <<IF x.b THEN 1 ELSE 0, 0, 0, 0>>
                       [] OTHER        -> LE32(offset)

(* What an array element stores outside its entry: containers carry their  *)
(* type byte, strings and numbers do not.                                  *)
Outline(x) == CASE x.t \in {"null", "bool"} -> <<>>
                [] x.t \in {"str", "num"}   -> EncodeBody(x)
                [] OTHER                    -> Encode(x)

(* Where each part starts when they follow one another from first on. *)
StartsOf(parts, first) == TLCEval(FoldLeft(LAMBDA acc, p : Append(acc, acc[Len(acc)] + Len(p)), <<first>>, parts))

(* xs: the elements in order. *)
ArrayBody(xs) ==
    LET n    == Len(xs)
        outs == TLCEval([i \in 1..n |-> Outline(xs[i])])
        offs == StartsOf(outs, 2 + 5 * n)
        ent  == Concat(TLCEval([i \in 1..n |-> <<TypeByte(xs[i])>> \o Inline(xs[i], offs[i])]))
        body == LE16(n) \o ent \o Concat(outs)
    IN  LE32(Len(body)) \o body

(* ms: the members in the order they were pushed; keys distinct. *)
ObjectBody(ms) ==
    LET n     == Len(ms)
        kvs   == TLCEval([i \in 1..n |-> LE16(Len(ms[i].k)) \o ms[i].k \o Encode(ms[i].v)])
        offs  == StartsOf(kvs, 2 + 4 * n)
        rank  == SortSeq(Nats(n), LAMBDA i, j : KeyLess(ms[i].k, ms[j].k))
        body  == LE16(n) \o Concat(TLCEval([i \in 1..n |-> LE32(offs[rank[i]])])) \o Concat(kvs)
    IN  LE32(Len(body)) \o body

EncodeBody(x) == CASE x.t = "null" -> <<>>
                   [] x.t = "bool" -> <<IF x.b THEN 1 ELSE 0>>
                   [] x.t = "str"  -> Varint(Len(x.s)) \o x.s
                   [] x.t = "num"  -> LET p == EncodeNum(x) IN <<Len(p)>> \o p
                   [] x.t = "arr"  -> ArrayBody(x.a)
                   [] x.t = "obj"  -> ObjectBody(x.o)

-----------------------------------------------------------------------------
(* Reading.  Positions are 1-based.  A result is [ok, v, next] with next   *)
(* the position after what was read.                                       *)

Bad == [ok |-> FALSE]
Good(val, next) == [ok |-> TRUE, v |-> val, next |-> next]

Has(b, p, n) == p >= 1 /\ p + n - 1 <= Len(b)
U16(b, p) == b[p] + 256 * b[p + 1]
(* Numbers of 2^31 and more never occur in a document; -1 stands for them. *)
U32(b, p) == IF b[p + 3] >= 128 THEN -1 ELSE b[p] + 256 * b[p + 1] + 65536 * b[p + 2] + 16777216 * b[p + 3]

ReadVarint(b, p) ==
    LET stop == FirstAt(b, p, LAMBDA c : c < 128)
        n    == stop - p + 1
        low(i) == b[p + i - 1] % 128
    IN  IF stop > Len(b) \/ n > 4 \/ (n > 1 /\ b[stop] = 0) THEN Bad
        ELSE Good(low(1) + (IF n > 1 THEN 128 * low(2) ELSE 0) + (IF n > 2 THEN 16384 * low(3) ELSE 0)
                         + (IF n > 3 THEN 2097152 * low(4) ELSE 0), stop + 1)

ReadStr(b, p) ==
    LET l == ReadVarint(b, p) IN
    IF ~l.ok \/ ~Has(b, l.next, l.v) THEN Bad
    ELSE Good(Str(SubSeq(b, l.next, l.next + l.v - 1)), l.next + l.v)

ReadNum(b, p) ==
    IF ~Has(b, p, 1) \/ ~Has(b, p + 1, b[p]) THEN Bad
    ELSE LET bs == SubSeq(b, p + 1, p + b[p]) IN
         IF WellFormedNum(bs) THEN Good(DecodeNum(bs), p + 1 + b[p]) ELSE Bad

(* The intervals [starts[i], nexts[i]) tile [from, to). *)
Tiles(starts, nexts, from, to) ==
    LET S == {starts[i] : i \in DOMAIN starts}
        N == {nexts[i] : i \in DOMAIN nexts}
    IN  /\ \A i \in DOMAIN starts : starts[i] < nexts[i]
        /\ Cardinality(S) = Len(starts)
        /\ S \cup {to} = N \cup {from}

(* What is at p, a value of type ty without its type byte.  A scalar is    *)
(* read; of a container only the extent is: cont |-> TRUE with s, the      *)
(* position of the element count, and next, the position after it.         *)
Leaf(r) == IF r.ok THEN [ok |-> TRUE, cont |-> FALSE, v |-> r.v, next |-> r.next] ELSE Bad
ReadShallow(b, p, ty) ==
    CASE ty = 6 -> Leaf(Good(Null, p))
      [] ty = 5 -> IF Has(b, p, 1) /\ b[p] \in {0, 1} THEN Leaf(Good(Bool(b[p] = 1), p + 1)) ELSE Bad
      [] ty = 4 -> Leaf(ReadNum(b, p))
      [] ty = 3 -> Leaf(ReadStr(b, p))
      [] ty \in {1, 2} ->
            LET size == U32(b, p) IN
            IF ~Has(b, p, 6) THEN Bad
            ELSE IF size < 2 \/ ~Has(b, p + 4, size) THEN Bad
            ELSE [ok |-> TRUE, cont |-> TRUE, ty |-> ty, s |-> p + 4, next |-> p + 4 + size]
      [] OTHER -> Bad

(* The entries of the array whose element count is at s and which ends     *)
(* before end.                                                             *)
ArrayEntries(b, s, end) ==
    LET n == U16(b, s)
        entry(i) == s + 2 + 5 * (i - 1)
        from == s + 2 + 5 * n
        read(i) ==
            LET ty == b[entry(i)]
                off == U32(b, entry(i) + 1)
            IN  CASE ty = 6 -> Leaf(Good(Null, 0))
                  [] ty = 5 -> IF off \in {0, 1} THEN Leaf(Good(Bool(off = 1), 0)) ELSE Bad
                  [] ty \in {3, 4} -> IF off < 0 THEN Bad ELSE ReadShallow(b, s + off, ty)
                  [] ty \in {1, 2} -> IF off < 0 \/ ~Has(b, s + off, 1) THEN Bad
                                      ELSE IF b[s + off] # ty THEN Bad
                                      ELSE ReadShallow(b, s + off + 1, ty)
                  [] OTHER -> Bad
    IN  IF from > end THEN Bad
        ELSE LET rs   == TLCEval([i \in 1..n |-> read(i)])
                 outl == SelectSeq(Nats(n), LAMBDA i : b[entry(i)] \in 1..4)
             IN  IF \E i \in 1..n : ~rs[i].ok THEN Bad
                 ELSE IF Tiles(TLCEval([j \in 1 .. Len(outl) |-> s + U32(b, entry(outl[j]) + 1)]),
                               TLCEval([j \in 1 .. Len(outl) |-> rs[outl[j]].next]), from, end)
                 THEN [ok |-> TRUE, kids |-> rs, keys |-> <<>>,
                       tidy |-> \A i \in 1..n : b[entry(i)] = 6 => U32(b, entry(i) + 1) = 0] ELSE Bad

(* Keys must be in key order.  Equal keys are tolerated here (a caller may *)
(* push one twice); KeysSorted tells whether there were any.               *)
ObjectEntries(b, s, end) ==
    LET n == U16(b, s)
        off(i) == U32(b, s + 2 + 4 * (i - 1))
        from == s + 2 + 4 * n
        keyLen(i) == U16(b, s + off(i))
        keyAt(i) == s + off(i) + 2
        read(i) ==
            IF off(i) < 0 \/ ~Has(b, s + off(i), 2) THEN Bad
            ELSE IF ~Has(b, keyAt(i), keyLen(i) + 1) THEN Bad
            ELSE ReadShallow(b, keyAt(i) + keyLen(i) + 1, b[keyAt(i) + keyLen(i)])
    IN  IF from > end THEN Bad
        ELSE LET rs == TLCEval([i \in 1..n |-> read(i)]) IN
             IF \E i \in 1..n : ~rs[i].ok THEN Bad
             ELSE LET keys == TLCEval([i \in 1..n |-> SubSeq(b, keyAt(i), keyAt(i) + keyLen(i) - 1)]) IN
                  IF /\ Tiles(TLCEval([i \in 1..n |-> s + off(i)]), TLCEval([i \in 1..n |-> rs[i].next]), from, end)
                     /\ \A i \in 1 .. (n - 1) : ~KeyLess(keys[i + 1], keys[i])
                  THEN [ok |-> TRUE, kids |-> rs, keys |-> keys, tidy |-> TRUE] ELSE Bad

(* The containers of a document, breadth first: todo holds their extents   *)
(* and nodes what was read of the first ones.  A container among the kids  *)
(* of a node refers to its place in todo.                                  *)
Containers(b, top) ==
    LET step(st) ==
            LET x == st.todo[Len(st.nodes) + 1]
                r == TLCEval(IF x.ty = 1 THEN ObjectEntries(b, x.s, x.next) ELSE ArrayEntries(b, x.s, x.next))
                inner == SelectSeq(r.kids, LAMBDA k : k.cont)
                add(acc, k) == IF k.cont THEN [kids |-> Append(acc.kids, [cont |-> TRUE, ref |-> acc.n + 1]), n |-> acc.n + 1]
                               ELSE [kids |-> Append(acc.kids, k), n |-> acc.n]
            IN  IF ~r.ok THEN [st EXCEPT !.done = TRUE, !.good = FALSE]
                ELSE [todo  |-> st.todo \o inner,
                      nodes |-> Append(st.nodes, [ty |-> x.ty, keys |-> r.keys,
                                                  kids |-> FoldLeft(add, [kids |-> <<>>, n |-> Len(st.todo)], r.kids).kids]),
                      done  |-> Len(st.nodes) + 1 = Len(st.todo) + Len(inner), good |-> TRUE,
                      tidy  |-> st.tidy /\ r.tidy]
    IN  Iterate(step, [todo |-> <<top>>, nodes |-> <<>>, done |-> FALSE, good |-> TRUE, tidy |-> TRUE])

(* The values of the nodes, from the last to the first. *)
Assemble(nodes) ==
    LET n == Len(nodes)
        build(x, acc) ==
            LET kid(k) == IF k.cont THEN acc[n - k.ref + 1] ELSE k.v IN
            Append(acc, IF x.ty = 2 THEN Arr(TLCEval([i \in 1 .. Len(x.kids) |-> kid(x.kids[i])]))
                        ELSE [t |-> "obj", o |-> TLCEval([i \in 1 .. Len(x.kids) |-> Member(x.keys[i], kid(x.kids[i]))])])
    IN  FoldRight(build, nodes, <<>>)[n]

ReadDoc(b, p) ==
    LET r == TLCEval(IF Has(b, p, 1) THEN ReadShallow(b, p + 1, b[p]) ELSE Bad)
        c == TLCEval(Containers(b, r))
    IN  IF ~r.ok THEN Bad
        ELSE IF ~r.cont THEN [ok |-> TRUE, v |-> r.v, next |-> r.next, tidy |-> TRUE]
        ELSE IF c.good THEN [ok |-> TRUE, v |-> Assemble(c.nodes), next |-> r.next, tidy |-> c.tidy] ELSE Bad

(* The whole byte string is one document.  tidy: the entries of nulls, which  *)
(* hold no value, are zero (readers do not care).                          *)
DecodeDoc(b) == LET r == ReadDoc(b, 1) IN IF r.ok /\ r.next = Len(b) + 1 THEN r ELSE Bad

Denotes(b, x) == LET r == DecodeDoc(b) IN r.ok /\ r.v = x
=============================================================================
