INIT Init
NEXT Next
INVARIANTS Inv_Moved
CHECK_DEADLOCK FALSE
CONSTANT Height = 3
CONSTANT Prior = 10
