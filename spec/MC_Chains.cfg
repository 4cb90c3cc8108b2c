INIT Init
NEXT Next
INVARIANTS Inv_Partition Inv_Paths Inv_Shape Inv_Work Inv_Longest Inv_Common Inv_Star Inv_Reopen Emitted
PROPERTY Stable
CHECK_DEADLOCK FALSE
CONSTANT Height = 3
CONSTANT Prior = 10
