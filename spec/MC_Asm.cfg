CONSTANTS Base = 256 MaxDirect = 75 SmallInts = 16 W = 32 N <- SecpN
INIT Init
NEXT Next
INVARIANTS RoundTrip Truncated TextParts Stable
CHECK_DEADLOCK FALSE
