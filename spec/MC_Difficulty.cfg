INIT Init
NEXT Next
INVARIANTS Canonical NeverEasierThanMax RetargetBounded EmergencyEases Steady MinDifficulty
CHECK_DEADLOCK FALSE
CONSTANT GenesisBits <- GB
