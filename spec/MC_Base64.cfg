INIT Init
NEXT Next
INVARIANTS Back Only
CHECK_DEADLOCK FALSE
