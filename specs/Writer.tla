------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* A caller's writer with room for only so many bytes.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* text was written to a writer with this room, which now holds got.  Once *)
(* the writer has refused something the call is an error, and nothing that *)
(* comes after what was refused is written.                                *)
Written(text, room, ok, got) ==
    IF room >= Len(text) THEN ok /\ got = text
    ELSE ~ok /\ Len(got) <= room /\ StartsWith(text, got)
=============================================================================
