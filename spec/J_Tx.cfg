CONSTANTS Base = 256 MaxDirect = 75 SmallInts = 16 W = 32 N <- SecpN P <- SecpP BB <- SecpB WP = 32
CONSTANT Verdict <- V
INIT JInit
NEXT JNext
INVARIANT Judged
CHECK_DEADLOCK FALSE
