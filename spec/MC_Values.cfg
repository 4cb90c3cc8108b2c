CONSTANTS P <- ToyP BB <- ToyB WP = 1
INIT Init
NEXT Next
INVARIANTS Keys Equivalence Ordered DerivedOk
CHECK_DEADLOCK FALSE
