-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Documents too large to spell out, in two families.                      *)
(*                                                                         *)
(* Ropes: a byte string is a sequence of runs <<byte, count>>, neighbours  *)
(* differing.  Strings and keys of a rope value are ropes, and so are the  *)
(* bytes and the text of its document: REncode is Layout.Encode on ropes.  *)
(*                                                                         *)
(* Fills: a container of m copies of one leaf, whose bytes have a closed   *)
(* form as a function of the position.                                     *)
(*                                                                         *)
(* MCBig checks both against Layout.Encode at sizes where both apply.      *)
(***************************************************************************)
EXTENDS Layout

-----------------------------------------------------------------------------
(* Ropes.                                                                  *)

RLen(x) == FoldLeft(LAMBDA acc, q : acc + q[2], 0, x)
Canon(x) ==
    LET add(acc, q) == IF q[2] = 0 THEN acc
                       ELSE IF acc # <<>> /\ acc[Len(acc)][1] = q[1] THEN [acc EXCEPT ![Len(acc)] = << q[1], @[2] + q[2] >>]
                       ELSE Append(acc, q)
    IN  FoldLeft(add, <<>>, x)
RLit(bytes) == Canon([i \in 1 .. Len(bytes) |-> << bytes[i], 1 >>])
RCat(xs) == Canon(Concat(xs))
RFlat(x) == Concat([i \in 1 .. Len(x) |-> Rep(x[i][1], x[i][2])])

RECURSIVE RLex(_, _)
RLex(x, y) ==
    IF x = <<>> \/ y = <<>> THEN x = <<>> /\ y # <<>>
    ELSE LET h == x[1]  g == y[1] IN
         IF h[1] # g[1] THEN h[1] < g[1]
         ELSE IF h[2] = g[2] THEN RLex(Tail(x), Tail(y))
         ELSE IF h[2] < g[2] THEN Len(x) = 1 \/ x[2][1] < g[1]
         ELSE Len(y) > 1 /\ h[1] < y[2][1]
RKeyLess(x, y) == RLen(x) < RLen(y) \/ (RLen(x) = RLen(y) /\ RLex(x, y))

(* A rope value: leaves [t |-> "str", r |-> rope], null, bool, num;        *)
(* containers [t, a] and [t, o] with members [k |-> rope, v].  The members *)
(* are in the order they were pushed.                                      *)
RSorted(ms) == SortSeq(ms, LAMBDA x, y : RKeyLess(x.k, y.k))

RECURSIVE RBody(_)
REncode(x) == RCat(<< RLit(<<TypeByte(x)>>), RBody(x) >>)
ROutline(x) == CASE x.t \in {"null", "bool"} -> <<>>
                 [] x.t \in {"str", "num"}   -> RBody(x)
                 [] OTHER                    -> REncode(x)
Offsets(first, parts) == FoldLeft(LAMBDA acc, p : Append(acc, acc[Len(acc)] + RLen(p)), <<first>>, parts)
RBody(x) ==
    CASE x.t = "null" -> <<>>
      [] x.t = "bool" -> RLit(<<IF x.b THEN 1 ELSE 0>>)
      [] x.t = "num"  -> RLit(EncodeBody(x))
      [] x.t = "str"  -> RCat(<< RLit(Varint(RLen(x.r))), x.r >>)
      [] x.t = "arr"  -> LET n == Len(x.a)
                             outs == TLCEval([i \in 1..n |-> ROutline(x.a[i])])
                             offs == Offsets(2 + 5 * n, outs)
                             ent  == Concat([i \in 1..n |-> <<TypeByte(x.a[i])>> \o Inline(x.a[i], offs[i])])
                             body == RCat(<< RLit(LE16(n) \o ent) >> \o outs)
                         IN  RCat(<< RLit(LE32(RLen(body))), body >>)
      [] x.t = "obj"  -> LET n == Len(x.o)
                             kvs  == TLCEval([i \in 1..n |-> RCat(<< RLit(LE16(RLen(x.o[i].k))), x.o[i].k, REncode(x.o[i].v) >>)])
                             offs == Offsets(2 + 4 * n, kvs)
                             rank == SortSeq(Nats(n), LAMBDA i, j : RKeyLess(x.o[i].k, x.o[j].k))
                             body == RCat(<< RLit(LE16(n) \o Concat([i \in 1..n |-> LE32(offs[rank[i]])])) >> \o kvs)
                         IN  RCat(<< RLit(LE32(RLen(body))), body >>)

(* The value as readers must report it: members in key order. *)
RECURSIVE RRead(_)
RRead(x) == CASE x.t = "arr" -> [t |-> "arr", a |-> TLCEval([i \in 1 .. Len(x.a) |-> RRead(x.a[i])])]
              [] x.t = "obj" -> [t |-> "obj", o |-> RSorted(TLCEval([i \in 1 .. Len(x.o) |-> [k |-> x.o[i].k, v |-> RRead(x.o[i].v)]]))]
              [] OTHER -> x

(* Its compact text.  Strings hold no byte that needs an escape; there are no numbers. *)
RQuote(x) == RCat(<< RLit(<<34>>), x, RLit(<<34>>) >>)
Commas(xs) == Concat([i \in 1 .. Len(xs) |-> IF i = 1 THEN xs[i] ELSE RLit(<<44>>) \o xs[i]])
RECURSIVE RText(_)
RText(x) ==
    CASE x.t = "null" -> RLit(<<110, 117, 108, 108>>)
      [] x.t = "bool" -> RLit(IF x.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
      [] x.t = "str"  -> RQuote(x.r)
      [] x.t = "arr"  -> RCat(<< RLit(<<91>>), Commas([i \in 1 .. Len(x.a) |-> RText(x.a[i])]), RLit(<<93>>) >>)
      [] x.t = "obj"  -> LET ms == RRead(x).o IN
                         RCat(<< RLit(<<123>>), Commas([i \in 1 .. Len(ms) |-> RCat(<< RQuote(ms[i].k), RLit(<<58>>), RText(ms[i].v) >>)]), RLit(<<125>>) >>)

(* Its indented text. *)
RLine(level) == << <<10, 1>>, <<32, 2 * level>> >>
RECURSIVE RPretty(_, _)
RPretty(x, level) ==
    LET item(i, body) == (IF i = 1 THEN <<>> ELSE RLit(<<44>>)) \o RLine(level + 1) \o body
        parts == IF x.t = "arr" THEN [i \in 1 .. Len(x.a) |-> item(i, RPretty(x.a[i], level + 1))]
                 ELSE LET ms == RSorted(x.o) IN
                      [i \in 1 .. Len(ms) |-> item(i, RQuote(ms[i].k) \o RLit(<<32, 58, 32>>)
                            \o (IF IsContainer(ms[i].v) THEN RLine(level + 1) ELSE <<>>) \o RPretty(ms[i].v, level + 1))]
    IN  IF ~IsContainer(x) THEN RText(x)
        ELSE RCat(<< RLit(<<IF x.t = "arr" THEN 91 ELSE 123>>), Concat(TLCEval(parts)), RLine(level), RLit(<<IF x.t = "arr" THEN 93 ELSE 125>>) >>)

(* What is at a position; its members stay in the order they were pushed. *)
RECURSIVE RAt(_, _)
RAt(x, pos) == IF pos = <<>> THEN x
               ELSE RAt(IF x.t = "arr" THEN x.a[pos[1] + 1] ELSE RSorted(x.o)[pos[1] + 1].v, Tail(pos))

(* The text a JSON parser is handed has the same strings, so it is refused exactly when one is too long. *)
RECURSIVE RTooLong(_)
RTooLong(x) == CASE x.t = "str" -> RLen(x.r) > MaxString
                 [] x.t = "arr" -> \E i \in 1 .. Len(x.a) : RTooLong(x.a[i])
                 [] x.t = "obj" -> \E i \in 1 .. Len(x.o) : RLen(x.o[i].k) > MaxKeyLen \/ RTooLong(x.o[i].v)
                 [] OTHER -> FALSE

(* A builder driven through a script: containers carry n, the declared     *)
(* count.  outs: what each call may report, in order (a container gives its*)
(* opening, then its content if that was accepted, then its finish); a push*)
(* that is refused leaves no trace.                                        *)
RECURSIVE Drive(_)
Script(x) == IF x.t = "arr" THEN [i \in 1 .. Len(x.a) |-> [k |-> <<>>, v |-> x.a[i]]] ELSE x.o
Drive(x) ==
    LET push(st, m) ==
            LET faults == IF st.blocked THEN {"inner"}
                          ELSE (IF Len(st.items) >= x.n THEN {"count"} ELSE {})
                               \cup (IF x.t = "obj" /\ RLen(m.k) > MaxKeyLen THEN {"long"} ELSE {})
                               \cup (IF m.v.t = "str" /\ RLen(m.v.r) > MaxString THEN {"long"} ELSE {})
            IN  IF faults # {} THEN [st EXCEPT !.outs = Append(@, faults)]
                ELSE IF ~IsContainer(m.v) THEN [st EXCEPT !.outs = Append(@, {"ok"}), !.items = Append(@, m)]
                ELSE LET d == TLCEval(Drive(m.v))
                         more == Append(st.outs, {"ok"}) \o d.outs
                     IN  IF d.good THEN [st EXCEPT !.outs = more, !.items = Append(@, [k |-> m.k, v |-> d.v])]
                         ELSE [st EXCEPT !.outs = more, !.blocked = TRUE]
        s == TLCEval(FoldLeft(push, [outs |-> <<>>, items |-> <<>>, blocked |-> FALSE], Script(x)))
        fin == IF s.blocked THEN {"inner"} ELSE IF Len(s.items) # x.n THEN {"count"} ELSE {"ok"}
        kept == s.items
    IN  [outs |-> Append(s.outs, fin), good |-> fin = {"ok"},
         v |-> IF x.t = "arr" THEN [t |-> "arr", a |-> TLCEval([i \in 1 .. Len(kept) |-> kept[i].v])]
               ELSE [t |-> "obj", o |-> kept]]

RECURSIVE HasNum(_)
HasNum(x) == CASE x.t = "num" -> TRUE
               [] x.t = "arr" -> \E i \in 1 .. Len(x.a) : HasNum(x.a[i])
               [] x.t = "obj" -> \E i \in 1 .. Len(x.o) : HasNum(x.o[i].v)
               [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Fills.  A fill f is [kind, n, m, order, leaf, marks]: a container of    *)
(* the first m of n items pushed.  Item i is the leaf, except that marks   *)
(* lists items (of a leaf true or false) that are its opposite.  The key   *)
(* of item i has four letters, so that key order is the order of items.    *)

FillKey(i) == << 97 + i \div 17576, 97 + ((i \div 676) % 26), 97 + ((i \div 26) % 26), 97 + (i % 26) >>

LeafOf(f, i) == IF i \in f.marks THEN Bool(~f.leaf.b) ELSE f.leaf

(* Item that is pushed k-th (from 0), and when (from 0) the item of rank j *)
(* among those pushed was pushed.                                          *)
Pushed(f, k) == CASE f.order = "asc" -> k
                  [] f.order = "desc" -> f.n - 1 - k
                  [] f.order = "stride" -> IF 2 * k < f.n THEN 2 * k ELSE 2 * (k - (f.n + 1) \div 2) + 1
When(f, j) == CASE f.order = "asc" -> j
                [] f.order = "desc" -> f.m - 1 - j
                [] f.order = "stride" -> IF j % 2 = 0 THEN j \div 2 ELSE (f.n + 1) \div 2 + j \div 2
Least(f) == IF f.order = "desc" THEN f.n - f.m ELSE 0

(* Byte p (from 0) of the body of the container after its size field. *)
ArrFill(f) ==
    LET out == Outline(f.leaf)
        ol  == Len(out)
        ty  == TypeByte(f.leaf)
        ent == 2 + 5 * f.m
        size == ent + f.m * ol
        byte(p) == IF p < 2 THEN LE16(f.m)[p + 1]
                   ELSE IF p < ent THEN LET k == (p - 2) \div 5  q == (p - 2) % 5 IN
                                        IF q = 0 THEN ty
                                        ELSE IF ol = 0 THEN Inline(LeafOf(f, k), 0)[q]
                                        ELSE LE32(ent + k * ol)[q]
                   ELSE out[1 + ((p - ent) % ol)]
    IN  <<2>> \o LE32(size) \o TLCEval([i \in 1 .. size |-> byte(i - 1)])

ObjFill(f) ==
    LET val == Encode(f.leaf)
        w   == 6 + Len(val)
        ent == 2 + 4 * f.m
        size == ent + f.m * w
        byte(p) == IF p < 2 THEN LE16(f.m)[p + 1]
                   ELSE IF p < ent THEN LE32(ent + w * When(f, (p - 2) \div 4))[1 + ((p - 2) % 4)]
                   ELSE LET q == (p - ent) % w  k == (p - ent) \div w IN
                        IF q = 0 THEN 4 ELSE IF q = 1 THEN 0
                        ELSE IF q < 6 THEN FillKey(Pushed(f, k))[q - 1]
                        ELSE IF q = w - 1 THEN Encode(LeafOf(f, Pushed(f, k)))[q - 5] ELSE val[q - 5]
    IN  <<1>> \o LE32(size) \o TLCEval([i \in 1 .. size |-> byte(i - 1)])

Fill(f) == IF f.kind = "arr" THEN ArrFill(f) ELSE ObjFill(f)

(* The same inside a container of one element. *)
Nested(nest, d) ==
    CASE nest = "none" -> d
      [] nest = "arr"  -> <<2>> \o LE32(7 + Len(d)) \o LE16(1) \o <<d[1]>> \o LE32(7) \o d
      [] nest = "obj"  -> <<1>> \o LE32(9 + Len(d)) \o LE16(1) \o LE32(6) \o <<1, 0, 107>> \o d

(* The value it must denote. *)
FillValue(f) ==
    IF f.kind = "arr" THEN Arr(TLCEval([j \in 1 .. f.m |-> LeafOf(f, j - 1)]))
    ELSE [t |-> "obj", o |-> TLCEval([j \in 1 .. f.m |-> LET i == Least(f) + j - 1 IN Member(FillKey(i), LeafOf(f, i))])]
NestedValue(nest, x) == CASE nest = "none" -> x [] nest = "arr" -> Arr(<<x>>)
                          [] nest = "obj" -> [t |-> "obj", o |-> << Member(<<107>>, x) >>]
=============================================================================
