CONSTANTS P <- ToyP BB <- ToyB WP = 1 N <- ToyN W = 1 GG <- ToyG
INIT Init
NEXT Next
INVARIANTS Signed Claimed
CHECK_DEADLOCK FALSE
