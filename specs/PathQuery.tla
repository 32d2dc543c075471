----------------------------- MODULE PathQuery ------------------------------
(***************************************************************************)
(* What a path selects.                                                    *)
(*                                                                         *)
(* Select(x, steps) is the declarative meaning: a step maps a value to the *)
(* sequence of values it selects there, and a path maps by concatenation,  *)
(* step after step.  Walk is the depth-first, one value at a time reading  *)
(* of the same path (the way an evaluator goes about it); the two are      *)
(* checked to agree in MCQuery.                                            *)
(***************************************************************************)
EXTENDS PathLang, Num

FlatMap(xs, F(_)) == Concat(TLCEval([i \in 1 .. Len(xs) |-> F(xs[i])]))

MemberOf(x, key) == LET i == FindKey(x, key) IN IF i = 0 THEN <<>> ELSE <<x.o[i].v>>

(* .key and .* reach through arrays, recursively. *)
RECURSIVE ByKey(_, _)
ByKey(x, key) == CASE x.t = "obj" -> MemberOf(x, key)
                   [] x.t = "arr" -> FlatMap(x.a, LAMBDA y : ByKey(y, key))
                   [] OTHER       -> <<>>

RECURSIVE ByAny(_)
ByAny(x) == CASE x.t = "obj" -> Children(x)
              [] x.t = "arr" -> FlatMap(x.a, ByAny)
              [] OTHER       -> <<>>

(* An object's own match comes before the matches inside its members. *)
RECURSIVE Descend(_, _)
Descend(x, key) == (IF x.t = "obj" THEN MemberOf(x, key) ELSE <<>>)
                   \o FlatMap(Children(x), LAMBDA y : Descend(y, key))

(* Subscripts.  A position may lie outside the array. *)
Pos(i, n) == IF i.last THEN n - 1 - i.n ELSE i.n

(* The positions a subscript selects in an array of n elements, in order. *)
Positions(s, n) ==
    LET p == Pos(s.a, n)
        q == IF s.r THEN Pos(s.b, n) ELSE p
        lo == Max2(Min2(p, q), 0)
        hi == Min2(Max2(p, q), n - 1)
    IN  IF lo > hi THEN <<>> ELSE TLCEval([i \in 1 .. (hi - lo + 1) |-> lo + i - 1])

(* A value that is not an array is an array of one, selected at most once. *)
BySub(x, list) ==
    IF x.t = "arr"
    THEN FlatMap(list, LAMBDA s : LET ps == Positions(s, Len(x.a)) IN TLCEval([i \in 1 .. Len(ps) |-> x.a[ps[i] + 1]]))
    ELSE IF \E i \in DOMAIN list : Positions(list[i], 1) # <<>> THEN <<x>> ELSE <<>>

ByAll(x) == IF x.t = "arr" THEN x.a ELSE <<x>>

Step(x, st) == CASE st.s = "key"  -> ByKey(x, st.k)
                 [] st.s = "any"  -> ByAny(x)
                 [] st.s = "desc" -> Descend(x, st.k)
                 [] st.s = "all"  -> ByAll(x)
                 [] st.s = "sub"  -> BySub(x, st.l)

SelectSteps(x, steps) == FoldLeft(LAMBDA vals, st : FlatMap(vals, LAMBDA y : Step(y, st)), <<x>>, steps)

NatNum(n) == MkNum(FALSE, TLCEval(LET t == NatText(n) IN [i \in 1 .. Len(t) |-> t[i] - 48]), 0)
TypeStr(x) == Str(CASE x.t = "obj"  -> <<111, 98, 106, 101, 99, 116>> [] x.t = "arr"  -> <<97, 114, 114, 97, 121>>
                    [] x.t = "str"  -> <<115, 116, 114, 105, 110, 103>> [] x.t = "num"  -> <<110, 117, 109, 98, 101, 114>>
                    [] x.t = "bool" -> <<98, 111, 111, 108>> [] x.t = "null" -> <<110, 117, 108, 108>>)

Plain(steps) == IF HasMethod(steps) THEN SubSeq(steps, 1, Len(steps) - 1) ELSE steps

(* The values a query with wrapper yields. *)
Select(x, steps) ==
    LET vals == SelectSteps(x, Plain(steps)) IN
    IF ~HasMethod(steps) THEN vals
    ELSE LET f == steps[Len(steps)].f IN
         CASE f = "count" -> <<NatNum(Len(vals))>>
           [] f = "size"  -> TLCEval([i \in 1 .. Len(vals) |-> NatNum(IF vals[i].t = "arr" THEN Len(vals[i].a) ELSE 1)])
           [] f = "type"  -> TLCEval([i \in 1 .. Len(vals) |-> TypeStr(vals[i])])

Exists(x, steps) == SelectSteps(x, steps) # <<>>

-----------------------------------------------------------------------------
(* The depth-first reading. *)
RECURSIVE Walk(_, _)
Walk(x, steps) ==
    IF steps = <<>> THEN <<x>>
    ELSE LET st == Head(steps)  rest == Tail(steps)  into(ys) == FlatMap(ys, LAMBDA y : Walk(y, steps)) IN
         CASE st.s = "key" -> IF x.t = "obj" THEN FlatMap(MemberOf(x, st.k), LAMBDA y : Walk(y, rest)) ELSE into(Children(x))
           [] st.s = "any" -> IF x.t = "obj" THEN FlatMap(Children(x), LAMBDA y : Walk(y, rest)) ELSE into(Children(x))
           [] st.s = "desc" -> (IF x.t = "obj" THEN FlatMap(MemberOf(x, st.k), LAMBDA y : Walk(y, rest)) ELSE <<>>) \o into(Children(x))
           [] st.s = "all" -> IF x.t = "arr" THEN FlatMap(x.a, LAMBDA y : Walk(y, rest)) ELSE Walk(x, rest)
           [] st.s = "sub" -> FlatMap(BySub(x, st.l), LAMBDA y : Walk(y, rest))
=============================================================================
