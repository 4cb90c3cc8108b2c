INIT Init
NEXT Next
INVARIANTS LookupsAgree CacheSound CacheBounded
CHECK_DEADLOCK FALSE
CONSTANT Emit = FALSE
