------------------------------- MODULE MCSubs -------------------------------
(***************************************************************************)
(* Subscript lists on arrays of 0 to MaxLen elements.                      *)
(***************************************************************************)
EXTENDS PathQuery, Emit, FiniteSets
CONSTANT MaxLen
VARIABLES n, list

Indexes == {Idx(i) : i \in 0 .. (MaxLen + 1)} \cup {FromEnd(i) : i \in 0 .. (MaxLen + 1)} \cup {Idx(2147483647), FromEnd(2147483647)}
Near == {Idx(0), Idx(1), Idx(MaxLen), FromEnd(0), FromEnd(1), FromEnd(MaxLen)}
Singles == {One(i) : i \in Indexes}
Spans == {Span(i, j) : i \in Indexes, j \in Indexes}
Some == {One(i) : i \in Near} \cup {Span(i, j) : i \in Near, j \in Near}

Init == n \in 0..MaxLen /\ list \in {<<s>> : s \in Singles \cup Spans}
Next == Len(list) < 2 /\ list[1] \in Some /\ \E s \in Some : list' = Append(list, s) /\ UNCHANGED n

(* A position as an integer: may be negative or beyond the array. *)
P(i) == IF i.last THEN n - 1 - i.n ELSE i.n
Hit(s) == {p \in 0 .. (n - 1) : IF s.r THEN (P(s.a) <= p /\ p <= P(s.b)) \/ (P(s.b) <= p /\ p <= P(s.a)) ELSE p = P(s.a)}
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Elems == Arr([i \in 1..n |-> NatNum(i - 1)])

Denoted == BySub(Elems, list) = Concat([k \in DOMAIN list |-> LET h == Ascending(Hit(list[k])) IN [i \in DOMAIN h |-> NatNum(h[i])]])
(* The order of the bounds does not matter. *)
Swapped == BySub(Elems, list) = BySub(Elems, [k \in DOMAIN list |-> IF list[k].r THEN Span(list[k].b, list[k].a) ELSE list[k]])
(* What is not an array is treated as an array of one, but selected at most once. *)
Scalar == LET one == BySub(Zero, list)  arr == BySub(Arr(<<Zero>>), list) IN (one = <<>>) = (arr = <<>>) /\ Len(one) <= 1 /\ (Len(list) = 1 => one = arr)
Text == PathText(<<SubStep(list)>>, <<>>, FALSE)
Reads == ParsePath(Text) = [ok |-> TRUE, steps |-> <<SubStep(list)>>]

Emitted == Out([n |-> n, path |-> Text])
=============================================================================
