INIT Init
NEXT Next
INVARIANT Emitted
CHECK_DEADLOCK FALSE
