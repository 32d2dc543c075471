-------------------------------- MODULE MCNum -------------------------------
(***************************************************************************)
(* Number texts: sign, integer part, fraction and exponent, each at its    *)
(* edges.                                                                  *)
(***************************************************************************)
EXTENDS Layout, JsonText, Emit
VARIABLES sign, int, frac, ex

T(ds) == AsciiDigits(ds)
N38 == Rep(9, 38)
Ints == {<<0>>, <<7>>, <<1, 0>>, <<9, 9>>, <<2, 5, 5>>, <<6, 5, 5, 3, 5>>, <<6, 5, 5, 3, 6>>, N38, Append(N38, 4), Append(N38, 5), <<1>> \o Rep(0, 37) \o <<5>>, <<1>> \o Rep(0, 38)}
Fracs == {<<>>, <<0>>, <<5>>, <<2, 5>>, <<0, 0>>, <<0, 5>>, <<5, 0>>, Rep(9, 37), Rep(0, 36) \o <<4, 9>>, Rep(0, 36) \o <<5>>}
Exps == {<<>>, <<101, 48>>, <<69, 43, 49>>, <<101, 45, 49>>, <<101, 50>>, <<101, 45, 48, 50>>} \cup
        {<<101>> \o TextNat : TextNat \in {<<49, 50, 53>>, <<49, 50, 54>>, <<49, 50, 55>>, <<57, 57, 57>>, <<49, 48, 48, 48>>}} \cup
        {<<101, 45>> \o TextNat : TextNat \in {<<49, 50, 56>>, <<49, 50, 57>>, <<49, 51, 48>>, <<49, 51, 49>>, <<49, 54, 55>>, <<49, 54, 56>>, <<57, 57, 57>>, <<49, 48, 48, 48>>}}

Init == sign \in {<<>>, <<45>>} /\ int \in Ints /\ frac \in Fracs /\ ex \in Exps
Next == UNCHANGED <<sign, int, frac, ex>>

Text == sign \o T(int) \o (IF frac = <<>> THEN <<>> ELSE <<46>> \o T(frac)) \o ex
Val == NumOfText(Text)

Canonical == Val = OverflowNum \/ Val = Zero \/
             (/\ Val.t = "num" /\ Val.d # <<>> /\ Len(Val.d) <= Precision /\ Val.d[1] # 0 /\ Val.d[Len(Val.d)] # 0
              /\ Len(Val.d) + Val.e \in -129 .. 126)
IsJson == LET j == ReadJson(Text) IN j.k = "ok" /\ j.v = Val
(* The point can be moved into the exponent. *)
Moved == LET e0 == IF ex = <<>> THEN 0 ELSE ExpVal(Tail(ex))
             e1 == e0 - Len(frac)
             et == IF e1 < 0 THEN <<101, 45>> \o IntText(-e1) ELSE <<101>> \o IntText(e1) IN
         e0 \in -900 .. 900 => NumOfText(sign \o T(int \o frac) \o et) = Val
(* Zeros at the end of a fraction do not count. *)
Padded == NumOfText(sign \o T(int) \o <<46>> \o T(frac \o <<0, 0>>) \o ex) = Val
(* The sign is kept, except that there is only one zero. *)
Signed == Val # OverflowNum /\ Val # Zero => Val.neg = (sign # <<>>)
Stored == Val # OverflowNum => /\ DecodeDoc(Encode(Val)).v = Val
                               /\ NumOfText(NumberText(Val)) = Val
                               /\ Len(EncodeNum(Val)) <= 18
(* One unit in the last place is the most that rounding does. *)
Rounded == Val # OverflowNum /\ Val # Zero /\ Len(StripLead(int \o frac)) <= Precision =>
             StripLead(int \o frac) = SubSeq(Val.d \o Rep(0, 80), 1, Len(StripLead(int \o frac)))

Emitted == Out([text |-> Text])
=============================================================================
