INIT Init
NEXT Next
INVARIANTS SizeRoundTrip SizeShortest BytesRoundTrip ReadDeterminedByPrefix ListRoundTrip FixedRoundTrip
CHECK_DEADLOCK FALSE
