------------------------------- MODULE MCTypes ------------------------------
(***************************************************************************)
(* The codes of the types: 1 to 6 are the types, each its own; nothing     *)
(* else is one, and a document starting with anything else is none.        *)
(***************************************************************************)
EXTENDS Layout, Emit
VARIABLE code

Init == code \in 0 .. 255
Next == UNCHANGED code

IsType == TypeCoded(code) # "none" <=> code \in 1 .. 6
Own == TypeCoded(code) # "none" => TypeByte([t |-> TypeCoded(code)]) = code
Only == \A i, j \in DOMAIN AllTypes : TypeByte([t |-> AllTypes[i]]) = TypeByte([t |-> AllTypes[j]]) => i = j
Starts == TypeCoded(code) = "none" => \A x \in {0, 1, 5} : ~DecodeDoc(<<code>> \o [i \in 1 .. x |-> 0]).ok

Emitted == Out([code |-> code])
=============================================================================
