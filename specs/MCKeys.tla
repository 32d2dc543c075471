------------------------------- MODULE MCKeys -------------------------------
(***************************************************************************)
(* Objects built in every order: what is stored is sorted, and the search  *)
(* by halving over the stored keys finds exactly the members.              *)
(***************************************************************************)
EXTENDS Builders, Emit
CONSTANT MaxKeys
VARIABLE ks

Pool == {<<>>, <<97>>, <<98>>, <<97, 97>>, <<97, 98>>, <<195, 169>>, <<97, 97, 97>>}

Init == ks = <<>>
Next == Len(ks) < MaxKeys /\ \E k \in Pool \ Range(ks) : ks' = Append(ks, k)

Items == [i \in 1 .. Len(ks) |-> Member(ks[i], Num(FALSE, <<i>>, 0))]
Bytes == <<1>> \o ObjectBody(Items)
Doc == DecodeDoc(Bytes)

(* Halving: the search of a reader over the sorted keys of x. *)
RECURSIVE Halve(_, _, _, _)
Halve(x, key, lo, hi) ==
    IF lo > hi THEN 0
    ELSE LET m == (lo + hi) \div 2 IN
         IF x.o[m].k = key THEN m ELSE IF KeyLess(x.o[m].k, key) THEN Halve(x, key, m + 1, hi) ELSE Halve(x, key, lo, m - 1)

Stored == Doc.ok /\ Doc.tidy /\ KeysSorted(Doc.v) /\ Doc.v = Obj(Items) /\ Len(Doc.v.o) = Len(ks)
Found == \A key \in Pool : /\ Halve(Doc.v, key, 1, Len(ks)) = FindKey(Doc.v, key)
                           /\ (FindKey(Doc.v, key) # 0) = (key \in Range(ks))
                           /\ \A i \in 1 .. Len(ks) : ks[i] = key => Doc.v.o[FindKey(Doc.v, key)].v = Num(FALSE, <<i>>, 0)
(* The bytes depend on the order of pushes only in where the members lie. *)
SameSize == Len(Bytes) = Len(<<1>> \o ObjectBody(Doc.v.o))
(* The order is a strict total order. *)
Total == \A a, b \in Pool : /\ ~(KeyLess(a, b) /\ KeyLess(b, a))
                            /\ (a = b) = (~KeyLess(a, b) /\ ~KeyLess(b, a))
                            /\ \A c \in Pool : KeyLess(a, b) /\ KeyLess(b, c) => KeyLess(a, c)

Emitted == ks # <<>> => Out([ks |-> ks, absent |-> SetToSeq(Pool \ Range(ks))])
=============================================================================
