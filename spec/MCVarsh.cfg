INIT Init
NEXT Next
INVARIANTS Good2
CHECK_DEADLOCK FALSE
