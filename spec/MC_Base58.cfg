INIT Init
NEXT Next
INVARIANTS There Back
CHECK_DEADLOCK FALSE
