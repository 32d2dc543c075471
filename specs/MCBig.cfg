INIT Init
NEXT Next
INVARIANT Same
CHECK_DEADLOCK FALSE
