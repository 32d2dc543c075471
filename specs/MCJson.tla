------------------------------- MODULE MCJson -------------------------------
(***************************************************************************)
(* JSON as a pushdown automaton over tokens, explored like the paths in    *)
(* MCPath: viable texts and the first token that spoils one.  The automaton*)
(* also counts depth and members, independently of ReadJson.               *)
(***************************************************************************)
EXTENDS Layout, JsonText, Emit
CONSTANT MaxTokens
VARIABLES text, k, q, stack, prev, deepest, over, cut

lb == <<91>>  rb == <<93>>  lc == <<123>>  rc == <<125>>  comma == <<44>>  colon == <<58>>
ka == <<34, 97, 34>>  ke == <<34, 34>>  ku == <<34, 92, 117, 48, 48, 52, 49, 34>>  rawnl == <<34, 10, 34>>  open == <<34, 97>>  sur == <<34, 92, 117, 100, 56, 48, 48, 34>>
n1 == <<45, 49>>  n2 == <<48>>  n3 == <<49, 46, 53, 69, 45, 50>>  lead == <<48, 49>>  nodigit == <<49, 46>>  huge == <<49, 101, 57, 57, 57>>  dash == <<45>>
tru == <<116, 114, 117>>  ff == <<12>>
Strings == {ka, ke, ku}
Scalars == Strings \cup {n1, n2, n3, huge, tTrue, tNull}
Spoilt == {rawnl, open, sur, lead, nodigit, dash, tru, ff}
Marks == {lb, rb, lc, rc, comma, colon}
Tokens == Marks \cup Scalars \cup Spoilt

(* q: what is expected: a value, a value or the end of an array, the end of *)
(* a value, a key or the end of an object, a key, a colon, nothing more.    *)
Done(st) == IF st = <<>> THEN "none" ELSE "next"
Value(t) == CASE t \in Scalars -> [q |-> Done(stack), st |-> stack]
              [] t = lb -> [q |-> "first", st |-> Append(stack, "arr")]
              [] t = lc -> [q |-> "key0", st |-> Append(stack, "obj")]
              [] OTHER -> [q |-> "dead", st |-> stack]
Up == SubSeq(stack, 1, Len(stack) - 1)
Close == [q |-> Done(Up), st |-> Up]
Dead == [q |-> "dead", st |-> stack]
Delta(t) ==
    IF t \in Spoilt THEN Dead
    ELSE CASE q = "value" -> Value(t)
      [] q = "first" -> IF t = rb THEN Close ELSE Value(t)
      [] q = "next"  -> LET in == stack[Len(stack)] IN
                        IF t = comma THEN [q |-> IF in = "arr" THEN "value" ELSE "key", st |-> stack]
                        ELSE IF (t = rb /\ in = "arr") \/ (t = rc /\ in = "obj") THEN Close ELSE Dead
      [] q = "key0"  -> IF t = rc THEN Close ELSE IF t \in Strings THEN [q |-> "colon", st |-> stack] ELSE Dead
      [] q = "key"   -> IF t \in Strings THEN [q |-> "colon", st |-> stack] ELSE Dead
      [] q = "colon" -> IF t = colon THEN [q |-> "value", st |-> stack] ELSE Dead
      [] q = "none"  -> Dead

Init == text = <<>> /\ k = 0 /\ q = "value" /\ stack = <<>> /\ prev = <<>> /\ deepest = 0 /\ over = FALSE /\ cut = FALSE
Sep(t) == IF prev \notin Marks \cup {<<>>} /\ t \notin Marks THEN <<32>> ELSE IF k % 3 = 2 THEN <<10>> ELSE <<>>
Next == /\ k < MaxTokens /\ q # "dead"
        /\ \E t \in Tokens :
             LET d == Delta(t) IN
             /\ text' = text \o Sep(t) \o t /\ prev' = t /\ k' = k + 1
             /\ q' = d.q /\ stack' = d.st /\ deepest' = Max2(deepest, Len(d.st))
             /\ over' = (over \/ t = huge)
             /\ cut' = (cut \/ (t \in {ka, ke, ku} /\ q \in {"key", "key0"}))

Read == ReadJson(text)
Agree == Read.k = "ok" <=> q = "none"
Depth == Read.k = "ok" => Read.depth = deepest
(* Without keys nothing is dropped, so a number too large is noticed. *)
Over == Read.k = "ok" /\ ~cut => (("over" \in RefusalsOf(Read)) <=> over)
(* An accepted text is a document, and its compact text denotes it too. *)
Kept == Read.k = "ok" /\ RefusalsOf(Read) = {} => /\ DecodeDoc(Encode(Read.v)).v = Read.v
                                                /\ ReadJson(Compact(Read.v)).v = Read.v
                                                /\ NestDepth(Read.v) <= deepest

Emitted == Out([text |-> text, ok |-> q = "none"])
=============================================================================
