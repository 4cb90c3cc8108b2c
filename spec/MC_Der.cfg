CONSTANTS N <- NVal
INIT Init
NEXT Next
INVARIANTS Exact Strict Below Fixed
CHECK_DEADLOCK FALSE
