INIT Init
NEXT Next
INVARIANTS NotLost CrashAtomic IdleShowsAfter NeverFatal
CHECK_DEADLOCK FALSE
