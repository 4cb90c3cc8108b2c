INIT Init
NEXT Next
INVARIANTS Emitted Beginning Independent
CHECK_DEADLOCK FALSE
