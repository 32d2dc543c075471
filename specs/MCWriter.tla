------------------------------ MODULE MCWriter ------------------------------
(***************************************************************************)
(* Every text, handed over in any pieces to a writer with any room that    *)
(* refuses for good or only once: stopping at the first refusal, and       *)
(* nothing else, keeps what Writer!Written asks for.  An eager call that   *)
(* carries on after a refusal breaks it.                                   *)
(***************************************************************************)
EXTENDS Writer, FiniteSets, TLC
CONSTANTS MaxLen

VARIABLES text, room, once, done, got, refused, ended

Texts == UNION {[1 .. n -> {1, 2}] : n \in 0 .. MaxLen}
Init == /\ text \in Texts /\ room \in 0 .. MaxLen + 1 /\ once \in BOOLEAN
        /\ done = 0 /\ got = <<>> /\ refused = FALSE /\ ended = FALSE

Fits(n) == Len(got) + n <= room \/ (once /\ refused)
Write == /\ ~ended /\ ~refused
         /\ \E n \in 0 .. Len(text) - done :
              IF Fits(n) THEN /\ got' = got \o SubSeq(text, done + 1, done + n) /\ done' = done + n
                              /\ UNCHANGED refused
              ELSE refused' = TRUE /\ UNCHANGED <<got, done>>
         /\ UNCHANGED <<text, room, once, ended>>
Return == /\ ~ended /\ (refused \/ done = Len(text))
          /\ ended' = TRUE /\ UNCHANGED <<text, room, once, done, got, refused>>
Next == Write \/ Return

Kept == ended => Written(text, room, ~refused, got)
(* Nothing else may be answered. *)
Sharp == ended => \A ok \in BOOLEAN, n \in 0 .. Len(text) :
           Written(text, room, ok, SubSeq(text, 1, n)) => ok = (room >= Len(text)) /\ (ok => n = Len(text))
Bounded == Len(got) <= room \/ (once /\ refused)
=============================================================================
