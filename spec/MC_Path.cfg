CONSTANTS H <- HVal
INIT Init
NEXT Next
INVARIANTS Back InRange Parts
CHECK_DEADLOCK FALSE
