CONSTANTS P <- SecpP BB <- SecpB WP = 32
CONSTANT Verdict <- V
INIT JInit
NEXT JNext
INVARIANT Judged
CHECK_DEADLOCK FALSE
