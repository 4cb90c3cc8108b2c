INIT Init
NEXT Next
INVARIANTS PushEvaluates PushShortest NumberRoundTrip NumberMinimal CoversOnce Append_ DropsAll
CHECK_DEADLOCK FALSE
