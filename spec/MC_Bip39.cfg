CONSTANTS Digest <- Mix
INIT Init
NEXT Next
INVARIANTS Generated Unique LastWord
CHECK_DEADLOCK FALSE
