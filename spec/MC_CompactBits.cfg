INIT Init
NEXT Next
INVARIANTS EncodeFloor EncodeRange DecodeExact Monotone
CHECK_DEADLOCK FALSE
