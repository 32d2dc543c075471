------------------------------- MODULE MCDocs -------------------------------
(***************************************************************************)
(* All documents up to MaxNodes nodes over a few leaves and keys.          *)
(***************************************************************************)
EXTENDS Layout, JsonText, Grow, Emit
CONSTANT MaxNodes
VARIABLE v

DocLeaves == {Null, Bool(TRUE), Num(FALSE, <<7>>, 0), Num(TRUE, <<2, 5>>, -1), Str(<<>>), Str(<<97>>), Arr(<<>>), Obj(<<>>)}
RootLeaves == DocLeaves \cup {Bool(FALSE), Zero, Num(FALSE, <<1>>, 125), Num(TRUE, <<1>>, -130), Num(FALSE, <<6, 5, 5, 3, 6>>, 0), Str(<<34, 92, 10, 195, 169>>), Str(Rep(120, 128))}
DocKeys == {<<>>, <<98>>, <<97, 97>>}       \* in key order; "aa" < "b" as text

Init == v \in RootLeaves
Next == /\ Nodes(v) < MaxNodes
        /\ v' \in Grown(v)

Bytes == Encode(v)

(* Reading undoes writing. *)
RoundTrip == DecodeDoc(Bytes) = [ok |-> TRUE, v |-> v, next |-> Len(Bytes) + 1, tidy |-> TRUE]
(* So do the texts. *)
TextTrip(x) == LET j == ReadJson(x) IN j.k = "ok" /\ j.v = v /\ j.depth = NestDepth(v) /\ RefusalsOf(j) = {}
Texts == TextTrip(Compact(v)) /\ TextTrip(Pretty(v)) /\ TextOf(Compact(v), v, FALSE) /\ TextOf(Pretty(v), v, TRUE)
(* A document ends where it says it ends: no proper prefix and no extension of one is a document. *)
SelfDelimiting == /\ \A n \in 0 .. (Len(Bytes) - 1) : ~DecodeDoc(SubSeq(Bytes, 1, n)).ok
                  /\ ~DecodeDoc(Append(Bytes, 0)).ok
                  /\ LET r == ReadDoc(Bytes \o <<6, 1>>, 1) IN r.ok /\ r.v = v /\ r.next = Len(Bytes) + 1
(* The bytes of a nested container are its own document. *)
Views == \A i \in 1 .. Len(Children(v)) :
            LET c == Children(v)[i]  d == Encode(c) IN
            IsContainer(c) => \E p \in 1 .. Len(Bytes) : SubSeq(Bytes, p, p + Len(d) - 1) = d
(* No byte is idle: flipping the low bit of one never leaves the same value  *)
(* (except in the entry of a null).                                          *)
RECURSIVE HasNull(_)
HasNull(x) == x.t = "null" \/ \E i \in 1 .. Len(Children(x)) : HasNull(Children(x)[i])
NoIdleByte == HasNull(v) \/ Len(Bytes) > 40 \/ \A p \in 1 .. Len(Bytes) :
                LET r == DecodeDoc([Bytes EXCEPT ![p] = IF @ % 2 = 0 THEN @ + 1 ELSE @ - 1]) IN ~r.ok \/ r.v # v

Emitted == Out([v |-> v])
=============================================================================
