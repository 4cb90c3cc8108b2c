INIT Init
NEXT Next
INVARIANTS Double Triple Field OctetsBack SymbolsBack
CHECK_DEADLOCK FALSE
