INIT Init
NEXT Next
INVARIANTS Exact Grows NearEnough
CHECK_DEADLOCK FALSE
