CONSTANTS P <- ToyP BB <- ToyB WP = 1 N <- ToyN W = 1 GG <- ToyG MacLen = 3 BS <- BS0 Kdf <- KdfT Enc <- EncT Dec <- DecT Mac <- MacT
INIT Init
NEXT Next
INVARIANTS Back Padding
CHECK_DEADLOCK FALSE
