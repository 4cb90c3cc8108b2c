CONSTANTS EM <- EMVal
INIT Init
NEXT Next
INVARIANTS Back There
CHECK_DEADLOCK FALSE
