-------------------------------- MODULE Grow --------------------------------
(***************************************************************************)
(* Values that grow: one more child in some container at a time.  Leaves   *)
(* and Keys are what a child and its key may be.                           *)
(***************************************************************************)
EXTENDS Values, FiniteSets
CONSTANTS Leaves, Keys

RECURSIVE Nodes(_)
Nodes(x) == 1 + FoldLeft(LAMBDA acc, y : acc + Nodes(y), 0, Children(x))

KeysIn(x) == {x.o[i].k : i \in DOMAIN x.o}

RECURSIVE Grown(_)
Grown(x) ==
    CASE x.t = "arr" -> {Arr(Append(x.a, y)) : y \in Leaves}
                        \cup UNION {{Arr([x.a EXCEPT ![i] = z]) : z \in Grown(x.a[i])} : i \in DOMAIN x.a}
      [] x.t = "obj" -> {Obj(Append(x.o, Member(key, y))) : key \in Keys \ KeysIn(x), y \in Leaves}
                        \cup UNION {{[t |-> "obj", o |-> [x.o EXCEPT ![i].v = z]] : z \in Grown(x.o[i].v)} : i \in DOMAIN x.o}
      [] OTHER -> {}
=============================================================================
