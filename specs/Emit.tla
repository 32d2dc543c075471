-------------------------------- MODULE Emit --------------------------------
(* What a model hands over to be replayed in the real code: one line each.  *)
EXTENDS TLC, Json, Sequences
Out(rec) == PrintT("CASE" \o ToJson(rec))
=============================================================================
