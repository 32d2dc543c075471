-------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Numbers: the value of a number text, and the binary payload of a number.*)
(* Up to 38 significant digits are exact; beyond that the 39th digit       *)
(* decides (half up).  With value 0.d1d2... * 10^n, d1 # 0:  n > 126 is an *)
(* overflow and n <= -130 counts as zero.                                  *)
(***************************************************************************)
EXTENDS Values

Precision == 38
IsDigit(c) == c \in 48..57

StripLead(ds) == LET p == FirstAt(ds, 1, LAMBDA c : c # 0) IN SubSeq(ds, p, Len(ds))
TrailZeros(ds) == Len(ds) - SelectLastInSubSeq(<<1>> \o ds, 1, Len(ds) + 1, LAMBDA c : c # 0) + 1

(* The number (-1)^neg * ds * 10^e, in canonical form. *)
MkNum(neg, ds, e) ==
    LET a == StripLead(ds)
        z == TrailZeros(a)
    IN  IF a = <<>> THEN Zero ELSE Num(neg, SubSeq(a, 1, Len(a) - z), e + z)

RECURSIVE Increment(_)
Increment(ds) ==
    IF ds = <<>> THEN <<1>>
    ELSE LET n == Len(ds) IN
         IF ds[n] < 9 THEN [ds EXCEPT ![n] = @ + 1]
         ELSE Append(Increment(SubSeq(ds, 1, n - 1)), 0)

Digits(x, from, to) == TLCEval([i \in 1 .. (to - from + 1) |-> x[from + i - 1] - 48])

(* A signed exponent text; anything of four digits or more is out of range. *)
ExpVal(x) ==
    LET sg  == IF x # <<>> /\ x[1] = 45 THEN -1 ELSE 1
        ds  == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
        sig == StripLead(Digits(ds, 1, Len(ds)))
    IN  IF Len(sig) > 3 THEN sg * 1000 ELSE sg * FoldLeft(LAMBDA acc, c : acc * 10 + c, 0, sig)

(* Value of the number text x, known to have the form                      *)
(* [-]digits[.digits][(e|E)[+|-]digits].                                   *)
OverflowNum == [t |-> "overflow"]
NumOfText(x) ==
    LET neg  == x[1] = 45
        p0   == IF x[1] \in {43, 45} THEN 2 ELSE 1
        p1   == FirstAt(x, p0, LAMBDA c : ~IsDigit(c))
        int  == Digits(x, p0, p1 - 1)
        dot  == p1 <= Len(x) /\ x[p1] = 46
        p2   == IF dot THEN FirstAt(x, p1 + 1, LAMBDA c : ~IsDigit(c)) ELSE p1
        frac == IF dot THEN Digits(x, p1 + 1, p2 - 1) ELSE <<>>
        ex   == IF p2 <= Len(x) THEN ExpVal(SubSeq(x, p2 + 1, Len(x))) ELSE 0
        sig  == StripLead(int \o frac)
        n    == Len(sig) - Len(frac) + ex
        cut  == SubSeq(sig, 1, Precision)
        up   == IF sig[Precision + 1] >= 5 THEN Increment(cut) ELSE cut
        ds   == IF Len(sig) > Precision THEN up ELSE sig
        m    == IF Len(sig) > Precision /\ Len(ds) > Precision THEN n + 1 ELSE n
    IN  IF sig = <<>> THEN Zero
        ELSE IF ex = 1000 THEN OverflowNum
        ELSE IF ex = -1000 THEN Zero
        ELSE IF m <= -130 THEN Zero
        ELSE IF m > 126 THEN OverflowNum
        ELSE MkNum(neg, ds, m - Len(ds))

-----------------------------------------------------------------------------
(* Binary payload: an unsigned little-endian integer, preceded by a flag   *)
(* byte and a scale byte unless it is a non-negative integer of at most two*)
(* bytes.  Flag bit 0 is the sign, bit 1 tells that the scale counts       *)
(* decimals (otherwise it counts trailing zeros left out).                 *)

(* Big-endian limbs of base 10^6. *)
MulAddLimbs(ls, m, c) ==
    LET step(acc, l) == LET v == l * m + acc[1] IN <<v \div 1000000, Append(acc[2], v % 1000000)>>
        r == FoldLeft(step, <<c, <<>>>>, ls)        \* ls little-endian
    IN  IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])

LimbDigits(l) == << l \div 100000, (l \div 10000) % 10, (l \div 1000) % 10, (l \div 100) % 10, (l \div 10) % 10, l % 10 >>

(* Decimal digits of a little-endian byte string. *)
DigitsOfLE(bs) ==
    LET ls == FoldRight(LAMBDA b, acc : MulAddLimbs(acc, 256, b), bs, <<>>)
    IN  StripLead(FoldLeft(LAMBDA acc, l : LimbDigits(l) \o acc, <<>>, ls))

(* Little-endian bytes of a digit sequence, shortest form. *)
LEOfDigits(ds) ==
    LET mul(bs, c) ==
            LET step(acc, b) == LET v == b * 10 + acc[1] IN <<v \div 256, Append(acc[2], v % 256)>>
                r == FoldLeft(step, <<c, <<>>>>, bs)
            IN  IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])
    IN  FoldLeft(mul, <<>>, ds)

DecodeNum(bs) ==
    IF Len(bs) <= 2 THEN MkNum(FALSE, DigitsOfLE(bs), 0)
    ELSE LET flags == bs[1]
             scale == IF (flags \div 2) % 2 = 1 THEN bs[2] ELSE -bs[2]
         IN  MkNum(flags % 2 = 1, DigitsOfLE(SubSeq(bs, 3, Len(bs))), -scale)

(* Payload of the number (-1)^neg * ds * 10^(-scale), ds without leading zeros. *)
EncodeNumParts(neg, ds, scale) ==
    LET le == LEOfDigits(ds) IN
    IF ds = <<>> THEN <<0>>
    ELSE IF scale = 0 /\ ~neg /\ Len(le) <= 2 THEN le
    ELSE << (IF neg THEN 1 ELSE 0) + (IF scale > 0 THEN 2 ELSE 0), IF scale > 0 THEN scale ELSE -scale >> \o le

(* A payload for the canonical number x. *)
EncodeNum(x) ==
    IF x.e >= 0 /\ x.e + Len(x.d) <= 5
    THEN EncodeNumParts(x.neg, x.d \o Rep(0, x.e), 0)
    ELSE EncodeNumParts(x.neg, x.d, -x.e)

WellFormedNum(bs) == /\ Len(bs) \in 1..18
                     /\ Len(bs) > 2 => bs[1] \in 0..3
=============================================================================
