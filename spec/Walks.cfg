INIT Init
NEXT Next
INVARIANT Isolated
INVARIANT Emitted
CHECK_DEADLOCK FALSE
