CONSTANTS P <- ToyP BB <- ToyB WP = 1
INIT Init
NEXT Next
INVARIANTS Group Points Bytes
CHECK_DEADLOCK FALSE
