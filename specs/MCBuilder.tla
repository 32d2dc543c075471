----------------------------- MODULE MCBuilder ------------------------------
(***************************************************************************)
(* All histories of builder calls up to MaxCalls, starting with Prefix     *)
(* containers already open.                                                *)
(***************************************************************************)
EXTENDS Builders, Emit
CONSTANTS MaxCalls, Prefix
VARIABLES bld, hist, out

Key(b) == <<97 + Len(TopOf(b).items)>>
Item(b, val) == [k |-> Key(b), v |-> val, s |-> [v |-> val, pad |-> 0]]

(* Calls: [op, kind, n, long].  Apply gives the stack and the outcome (a set: any of its members). *)
Apply(b, c) ==
    CASE c.op = "push" -> LET f == PushFaults(b, IF c.long THEN MaxKey + 1 ELSE 1, FALSE) IN
                          IF f = {} THEN [b |-> Pushed1(b, Item(b, Bool(TRUE))), r |-> {"ok"}] ELSE [b |-> b, r |-> f]
      [] c.op = "open" -> LET f == PushFaults(b, IF c.long THEN MaxKey + 1 ELSE 1, TRUE) IN
                          IF f = {} THEN [b |-> Append(b, Frame(c.kind, c.n, [key |-> Key(b)])), r |-> {"ok"}] ELSE [b |-> b, r |-> f]
      [] c.op = "fin"  -> LET f == FinFaults(b) IN
                          IF f # {} THEN [b |-> Abandoned(b), r |-> f]
                          ELSE [b |-> IF Len(b) = 1 THEN <<>> ELSE Closed(b), r |-> {"ok"}]
      [] c.op = "drop" -> [b |-> Abandoned(b), r |-> {"gone"}]

KindAt(i) == IF i % 3 = 1 THEN "obj" ELSE "arr"
(* The open containers of the prefix: each has room for the next, the innermost for two. *)
Opened(kd, cnt) == [i \in 1 .. Prefix |-> IF i = Prefix THEN Frame(kd, cnt, [key |-> <<97>>]) ELSE Frame(KindAt(i), 1, [key |-> <<97>>])]

Call(o, kd, n, lg) == [op |-> o, kind |-> kd, n |-> n, long |-> lg]
Calls(b) == {Call("push", "", 0, FALSE), Call("fin", "", 0, FALSE), Call("drop", "", 0, FALSE)}
            \cup {Call("open", kd, n, FALSE) : kd \in {"arr", "obj"}, n \in {0, 1}}
            \cup (IF TopOf(b).kind = "obj" THEN {Call("push", "", 0, TRUE), Call("open", "arr", 1, TRUE)} ELSE {})

Starts == IF Prefix = 0 THEN {} ELSE {[kind |-> kd, n |-> n] : kd \in {"arr", "obj"}, n \in 0..2}
Init == \E s \in Starts : /\ bld = Opened(s.kind, s.n)
                          /\ hist = << [op |-> "root", kind |-> s.kind, n |-> s.n, long |-> FALSE, r |-> {"ok"}] >>
                          /\ out = {"ok"}
Next == /\ bld # <<>> /\ Len(hist) <= MaxCalls
        /\ \E c \in Calls(bld) : LET a == Apply(bld, c) IN
             bld' = a.b /\ out' = a.r /\ hist' = Append(hist, [op |-> c.op, kind |-> c.kind, n |-> c.n, long |-> c.long, r |-> a.r])

Shape == /\ Len(bld) <= MaxDepth
         /\ \A i \in DOMAIN bld : Len(bld[i].items) <= bld[i].n
(* Only the innermost open builder can be blocked, and once it is nothing is accepted any more. *)
Blocked == \A i \in DOMAIN bld : bld[i].blocked => i = Len(bld)
NothingAfter == \A i \in 1 .. (Len(hist) - 1) :
                  (hist[i].op = "drop" \/ (hist[i].op = "fin" /\ hist[i].r # {"ok"}))
                  => \A j \in (i + 1) .. Len(hist) : hist[j].r \in {{"inner"}, {"gone"}}
(* Leaving out the calls that were refused changes nothing. *)
Effective == SelectSeq(hist, LAMBDA h : h.op \in {"fin", "drop"} \/ (h.op \in {"push", "open"} /\ h.r = {"ok"}))
NoTrace == FoldLeft(LAMBDA b, c : Apply(b, c).b, Opened(hist[1].kind, hist[1].n), Effective) = bld
(* Finishing succeeds exactly when all that was declared came, and came to a good end. *)
RECURSIVE Opening(_, _)
Opening(i, d) == IF hist[i].op = "root" THEN i
                 ELSE IF hist[i].op \in {"fin", "drop"} THEN Opening(i - 1, d + 1)
                 ELSE IF hist[i].op = "open" /\ hist[i].r = {"ok"} THEN IF d = 0 THEN i ELSE Opening(i - 1, d - 1)
                 ELSE Opening(i - 1, d)
(* How deep the builder is that call i is made on, relative to the first. *)
Level(i) == FoldLeft(LAMBDA acc, h : IF h.op = "open" /\ h.r = {"ok"} THEN acc + 1 ELSE IF h.op \in {"fin", "drop"} THEN acc - 1 ELSE acc, 0, SubSeq(hist, 1, i - 1))
FinishIff == LET last == Len(hist) IN
    hist[last].op = "fin" /\ Level(last) >= 0 =>
       LET o == Opening(last - 1, 0)
           here == {i \in (o + 1) .. (last - 1) : Level(i) = Level(last)}
           came == {i \in here : (hist[i].op = "push" /\ hist[i].r = {"ok"}) \/ (hist[i].op = "open" /\ hist[i].r = {"ok"})}
           spoilt == \E i \in (o + 1) .. (last - 1) : Level(i) = Level(last) + 1 /\ (hist[i].op = "drop" \/ (hist[i].op = "fin" /\ hist[i].r # {"ok"}))
       IN  hist[last].r = (IF spoilt THEN {"inner"} ELSE IF Cardinality(came) # hist[o].n THEN {"count"} ELSE {"ok"})
(* What was accepted is what the containers hold. *)
Holds == \A i \in DOMAIN bld : LET d == Encode(ValueOf(bld[i])) IN DecodeDoc(d) = [ok |-> TRUE, v |-> ValueOf(bld[i]), next |-> Len(d) + 1, tidy |-> TRUE]

Emitted == (bld = <<>> \/ Len(hist) = MaxCalls + 1) => Out([prefix |-> Prefix, open |-> Len(bld), calls |-> [i \in 1 .. Len(hist) |-> [op |-> hist[i].op, kind |-> hist[i].kind, n |-> hist[i].n, long |-> hist[i].long, ok |-> hist[i].r = {"ok"}]]])
=============================================================================
