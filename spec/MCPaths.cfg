INIT Init
NEXT Next
INVARIANTS RoundTrip Stable
CHECK_DEADLOCK FALSE
