INIT Init
NEXT Next
INVARIANT Vocal
INVARIANT Emitted
CHECK_DEADLOCK FALSE
