INIT Init
NEXT Next
INVARIANTS One Two Curve
CHECK_DEADLOCK FALSE
