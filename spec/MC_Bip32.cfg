CONSTANTS P <- ToyP BB <- ToyB WP = 1 N <- ToyN W = 1 GG <- ToyG CL = 2 HH <- HalfH Hm <- HmT Ident <- IdentT
INIT Init
NEXT Next
INVARIANTS Mirror Range Safe Kept Texts_
CHECK_DEADLOCK FALSE
