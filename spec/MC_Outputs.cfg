CONSTANTS Base = 256 MaxDirect = 75 SmallInts = 16 W = 32 N <- SecpN P <- SecpP BB <- SecpB WP = 32
INIT Init
NEXT Next
INVARIANTS NoiseFree Canonical MultiSense Unknown
CHECK_DEADLOCK FALSE
