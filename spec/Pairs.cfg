INIT Init
NEXT Next
INVARIANTS Emitted EmittedLadder
CHECK_DEADLOCK FALSE
