------------------------------- MODULE MCBig --------------------------------
(* The rope encoder and the closed forms of Big are Layout.Encode.          *)
EXTENDS Big, JsonText, TLCExt
VARIABLE x
Strs == { <<>>, << <<97, 1>> >>, << <<97, 127>> >>, << <<97, 128>> >>, << <<97, 1>>, <<98, 200>> >>, << <<98, 300>> >> }
Leaves == {[t |-> "str", r |-> q] : q \in Strs} \cup {Null, Bool(TRUE), Num(FALSE, <<7>>, 0)}
Keys == << << <<97, 1>> >>, << <<97, 300>> >>, << <<98, 1>> >>, << <<97, 2>>, <<98, 1>> >>, <<>>, << <<97, 1>>, <<98, 2>> >> >>
Orders == {s \in [1..3 -> 1..6] : s[1] # s[2] /\ s[2] # s[3] /\ s[1] # s[3]}
Ropes == {[t |-> "arr", a |-> <<u, w>>] : u \in Leaves, w \in Leaves}
     \cup {[t |-> "obj", o |-> << [k |-> Keys[s[1]], v |-> u], [k |-> Keys[s[2]], v |-> Null], [k |-> Keys[s[3]], v |-> Bool(FALSE)] >>] : s \in Orders, u \in Leaves}
Deep == {[t |-> "arr", a |-> <<u, Null, u>>] : u \in Ropes}
RECURSIVE Plain(_)
Plain(v) == CASE v.t = "str" -> Str(RFlat(v.r))
              [] v.t = "arr" -> Arr([i \in 1 .. Len(v.a) |-> Plain(v.a[i])])
              [] v.t = "obj" -> [t |-> "obj", o |-> [i \in 1 .. Len(v.o) |-> Member(RFlat(v.o[i].k), Plain(v.o[i].v))]]
              [] OTHER -> v
FillLeaves == {Null, Bool(TRUE), Num(FALSE, <<7>>, 0), Str(<<97, 98>>)}
A(kd, n, m, o, u, marks) == [kind |-> kd, n |-> n, m |-> m, order |-> o, leaf |-> u, marks |-> marks]
Fills == {A(kd, n, n, o, u, {}) : kd \in {"arr", "obj"}, n \in {0, 1, 2, 3, 27, 60}, o \in {"asc", "desc", "stride"}, u \in FillLeaves}
     \cup {A(kd, 9, m, o, u, {}) : kd \in {"arr", "obj"}, m \in 0..8, o \in {"asc", "desc"}, u \in FillLeaves}
     \cup {A(kd, 8, m, o, Bool(b), marks) : kd \in {"arr", "obj"}, m \in {5, 8}, o \in {"asc", "desc"}, b \in BOOLEAN, marks \in SUBSET {0, 3, 7}}
     \cup {A(kd, 8, 8, "stride", Bool(b), marks) : kd \in {"arr", "obj"}, b \in BOOLEAN, marks \in SUBSET {0, 3, 7}}
Init == x \in {[rope |-> u] : u \in Ropes \cup Deep \cup Leaves} \cup {[fill |-> u] : u \in Fills}
Next == UNCHANGED x
Pushes(f) == [k \in 1 .. f.m |-> Member(FillKey(Pushed(f, k - 1)), LeafOf(f, Pushed(f, k - 1)))]
Same == IF "rope" \in DOMAIN x
        THEN /\ RFlat(REncode(x.rope)) = Encode(Plain(x.rope))
             /\ Plain(RRead(x.rope)) = DecodeDoc(Encode(Plain(x.rope))).v
             /\ HasNum(x.rope) \/ LET y == Plain(RRead(x.rope)) IN
                   /\ RFlat(RText(x.rope)) = Compact(y) /\ RText(x.rope) = Canon(RText(x.rope))
                   /\ RFlat(RPretty(x.rope, 0)) = Pretty(y) /\ RPretty(x.rope, 0) = Canon(RPretty(x.rope, 0))
        ELSE LET f == x.fill
                 v == IF f.kind = "arr" THEN FillValue(f) ELSE [t |-> "obj", o |-> Pushes(f)]
                 d == Fill(f) IN
             /\ d = Encode(v)
             /\ DecodeDoc(d).v = FillValue(f)
             /\ \A nest \in {"arr", "obj"} : LET y == NestedValue(nest, v) IN
                  /\ Nested(nest, d) = Encode(y)
                  /\ DecodeDoc(Nested(nest, d)).v = NestedValue(nest, FillValue(f))
=============================================================================
