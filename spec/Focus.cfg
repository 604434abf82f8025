INIT Init
NEXT Next
INVARIANT Looked
CHECK_DEADLOCK FALSE
