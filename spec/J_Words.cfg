CONSTANTS WB = 11 R = 32 Digest <- Sha39 EN = 1626 EM <- EMVal
CONSTANT Verdict <- V
INIT JInit
NEXT JNext
INVARIANT Judged
CHECK_DEADLOCK FALSE
