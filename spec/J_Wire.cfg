CONSTANT Verdict <- V
INIT JInit
NEXT JNext
INVARIANT Judged
CHECK_DEADLOCK FALSE
CONSTANT Base = 256
