------------------------------ MODULE Builders ------------------------------
(***************************************************************************)
(* The stack of open builders, innermost last, and the effect of each call *)
(* on it.  A frame is [kind, n, items, blocked, root]: n elements were     *)
(* declared, items were accepted, blocked tells that a nested builder was  *)
(* abandoned or failed to finish.  root describes where the result goes:   *)
(* for a nested builder [key], the key it was opened under.                *)
(***************************************************************************)
EXTENDS Layout

MaxKey   == 65535   \* bytes of a key

Frame(kd, cnt, root) == [kind |-> kd, n |-> cnt, items |-> <<>>, blocked |-> FALSE, root |-> root]
TopOf(bld) == bld[Len(bld)]

(* What a frame holds.  A key pushed twice stays twice, in either order. *)
Members(items) == Ordered(TLCEval([i \in 1 .. Len(items) |-> Member(items[i].k, items[i].v)]))
ValueOf(f) == IF f.kind = "arr" THEN Arr(TLCEval([i \in 1 .. Len(f.items) |-> f.items[i].v]))
              ELSE [t |-> "obj", o |-> Members(f.items)]
(* The sequence of values given to the encoder, on which alone its bytes depend. *)
SourceOf(f) == [kind |-> f.kind, from |-> TLCEval([i \in 1 .. Len(f.items) |-> [k |-> f.items[i].k, s |-> f.items[i].s]])]

(* Why a push under a key of klen bytes is refused: any of these. *)
PushFaults(bld, klen, opens) ==
    LET f == TopOf(bld) IN
    IF f.blocked THEN {"inner"}
    ELSE (IF Len(f.items) >= f.n THEN {"count"} ELSE {})
         \cup (IF f.kind = "obj" /\ klen > MaxKey THEN {"long"} ELSE {})
         \cup (IF opens /\ Len(bld) >= MaxDepth THEN {"deep"} ELSE {})

(* Why the innermost builder does not finish. *)
FinFaults(bld) == LET f == TopOf(bld) IN
                  IF f.blocked THEN {"inner"} ELSE IF Len(f.items) # f.n THEN {"count"} ELSE {}

Pushed1(bld, item) == [bld EXCEPT ![Len(bld)].items = Append(@, item)]

(* A nested builder finished. *)
Closed(bld) ==
    LET m == Len(bld) - 1
        f == TopOf(bld)
        item == [k |-> f.root.key, v |-> ValueOf(f), s |-> SourceOf(f)]
    IN  [SubSeq(bld, 1, m) EXCEPT ![m].items = Append(@, item)]

(* The innermost builder is gone without having finished. *)
Abandoned(bld) == IF Len(bld) = 1 THEN <<>>
                  ELSE LET m == Len(bld) - 1 IN [SubSeq(bld, 1, m) EXCEPT ![m].blocked = TRUE]
=============================================================================
