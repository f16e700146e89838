INIT Init
NEXT Next
VIEW View0
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
