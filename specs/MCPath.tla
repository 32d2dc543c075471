------------------------------- MODULE MCPath -------------------------------
(***************************************************************************)
(* The path grammar as an automaton over tokens, explored token by token:  *)
(* every text that can still become a path, and every first token that     *)
(* spoils one.  ParsePath must agree with it on each of them.              *)
(***************************************************************************)
EXTENDS PathLang, Emit
CONSTANT MaxTokens
VARIABLES text, k, q

wsp == <<32>>  tab == <<9>>  dollar == <<36>>  dot == <<46>>  star == <<42>>  lb == <<91>>  rb == <<93>>  comma == <<44>>  minus == <<45>>
zero == <<48>>  one == <<49>>  max == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>  over == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
ltr == <<97>>  lp == <<40>>  rp == <<41>>  quo == <<34>>  esc == <<92, 34>>  bad == <<92, 120>>
Numbers == {zero, one, max, over}
Words == {ltr, wLast, wTo, wCount, wSize}
Tokens == {wsp, tab, dollar, dot, star, lb, rb, comma, minus, lp, rp, quo, esc, bad} \cup Numbers \cup Words

Dead == [s |-> "dead"]
St(x) == [s |-> x]
Name(w) == [s |-> "name", w |-> w]              \* inside or at the end of an unquoted key w
Num_(sub, ds) == [s |-> "num", r |-> sub, ds |-> ds]   \* digits ds of a subscript; r: of the upper bound of a range

TooLong(ds) == LET z == FirstAt(ds, 1, LAMBDA c : c # 48)
                   sig == SubSeq(ds, z, Len(ds)) IN Len(sig) > 10 \/ (Len(sig) = 10 /\ LexLess(max, sig))

(* What may follow a whole step. *)
AfterStep(t) == IF t \in {wsp, tab} THEN St("step") ELSE IF t = dot THEN St("dot") ELSE IF t = lb THEN St("lb") ELSE Dead
(* What may follow an index. *)
AfterIndex(r, t) == CASE t \in {wsp, tab} -> [s |-> "index", r |-> r]
                      [] t = wTo -> IF r THEN Dead ELSE St("to")
                      [] t = comma -> St("comma")
                      [] t = rb -> St("step")
                      [] OTHER -> Dead
StartIndex(r, here, t) == CASE t \in {wsp, tab} -> here
                            [] t = wLast -> [s |-> "last", r |-> r]
                            [] t \in Numbers -> Num_(r, t)
                            [] OTHER -> Dead
Delta(x, t) ==
    CASE x.s = "start" -> IF t = wsp THEN x ELSE IF t = dollar THEN St("root") ELSE Dead
      [] x.s = "root"  -> IF t = wsp THEN x ELSE IF t = tab THEN Dead ELSE AfterStep(t)
      [] x.s = "step"  -> AfterStep(t)
      [] x.s = "dot"   -> IF t = dot THEN St("desc")
                          ELSE IF t \in {wsp, tab} THEN St("dotted")
                          ELSE IF t = star THEN St("step") ELSE IF t = quo THEN St("quoted") ELSE IF t \in Words THEN Name(t) ELSE Dead
      [] x.s = "dotted" -> IF t \in {wsp, tab} THEN x
                          ELSE IF t = star THEN St("step") ELSE IF t = quo THEN St("quoted") ELSE IF t \in Words THEN Name(t) ELSE Dead
      [] x.s = "name"  -> IF t \in Words \cup Numbers THEN Name(x.w \o t)
                          ELSE IF t \in {wsp, tab} THEN [s |-> "named", w |-> x.w]
                          ELSE IF t = lp THEN IF x.w \in {wCount, wSize, wType} THEN St("call") ELSE Dead
                          ELSE AfterStep(t)
      [] x.s = "named" -> IF t \in {wsp, tab} THEN x
                          ELSE IF t = lp THEN IF x.w \in {wCount, wSize, wType} THEN St("call") ELSE Dead
                          ELSE AfterStep(t)
      [] x.s = "call"  -> IF t \in {wsp, tab} THEN x ELSE IF t = rp THEN St("end") ELSE Dead
      [] x.s = "end"   -> IF t \in {wsp, tab} THEN x ELSE Dead
      [] x.s = "desc"  -> IF t \in {wsp, tab} THEN x ELSE IF t = quo THEN St("quoted") ELSE IF t \in Words THEN St("below") ELSE Dead
      [] x.s = "below" -> IF t \in Words \cup Numbers THEN x ELSE AfterStep(t)
      [] x.s = "quoted" -> IF t = quo THEN St("step") ELSE IF t = bad THEN Dead ELSE x
      [] x.s = "lb"    -> IF t = star THEN St("all") ELSE StartIndex(FALSE, x, t)
      [] x.s = "all"   -> IF t \in {wsp, tab} THEN x ELSE IF t = rb THEN St("step") ELSE Dead
      [] x.s = "comma" -> StartIndex(FALSE, x, t)
      [] x.s = "to"    -> StartIndex(TRUE, x, t)
      [] x.s = "last"  -> IF t = minus THEN [s |-> "minus", r |-> x.r] ELSE IF t \in {wsp, tab} THEN x ELSE AfterIndex(x.r, t)
      [] x.s = "minus" -> IF t \in {wsp, tab} THEN x ELSE IF t \in Numbers THEN Num_(x.r, t) ELSE Dead
      [] x.s = "num"   -> IF t \in Numbers THEN Num_(x.r, x.ds \o t)
                          ELSE IF TooLong(x.ds) THEN Dead ELSE AfterIndex(x.r, t)
      [] x.s = "index" -> AfterIndex(x.r, t)

Accepting == q.s \in {"root", "step", "name", "named", "below", "end"}
Doomed == q.s = "dead" \/ (q.s = "num" /\ TooLong(q.ds))

(* Inside quotes most tokens are alike. *)
Offered == IF q.s = "quoted" THEN {ltr, quo, esc, bad, dot} ELSE Tokens

Init == text = <<>> /\ k = 0 /\ q = St("start")
Next == /\ k < MaxTokens /\ ~Doomed
        /\ \E t \in Offered : text' = text \o t /\ q' = Delta(q, t) /\ k' = k + 1

Parsed == ParsePath(text)
Agree == Parsed.ok <=> Accepting
Position == ~Parsed.ok => Parsed.pos \in 0 .. Len(text)
(* Every path can be written down again in each style and read back. *)
Again == Parsed.ok => \A w \in {<<>>, wsp, <<32, 10>>}, quoted \in BOOLEAN :
            LET again == ParsePath(IF w = <<>> THEN PathText(Parsed.steps, w, quoted) ELSE <<32>> \o PathText(Parsed.steps, w, quoted)) IN
            again.ok /\ again.steps = Parsed.steps
(* Only the last step may be a method. *)
OnlyLast == Parsed.ok => \A i \in 1 .. (Len(Parsed.steps) - 1) : Parsed.steps[i].s # "fn"

Emitted == Out([text |-> text, ok |-> Accepting])
=============================================================================
