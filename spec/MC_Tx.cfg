CONSTANTS Base = 4 HashLen = 1 W4 = 1 W8 = 2 HashOf <- Injective
INIT Init
NEXT Next
INVARIANTS RoundTrip Truncated Sizes Commits Finality
CHECK_DEADLOCK FALSE
