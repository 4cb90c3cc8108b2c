CONSTANTS Base = 256 MaxDirect = 75 SmallInts = 16 W = 32 N <- SecpN P <- SecpP BB <- SecpB WP = 32 GG <- SecpG
CONSTANTS BS = 16 MacLen = 32 Kdf <- KdfSha Enc <- EncAes Dec <- DecAes Mac <- MacSha
CONSTANTS HH <- Hard CL = 32 Hm <- HmReal Ident <- Hash160
CONSTANT Verdict <- V
INIT JInit
NEXT JNext
INVARIANT Judged
CHECK_DEADLOCK FALSE
