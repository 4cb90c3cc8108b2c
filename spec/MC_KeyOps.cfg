CONSTANTS P <- ToyP BB <- ToyB WP = 1 N <- ToyN W = 1 GG <- ToyG
INIT Init
NEXT Next
INVARIANTS Pair Together Range Kept Sums Shares
CHECK_DEADLOCK FALSE
