INIT Init
NEXT Next
CONSTRAINT Small
INVARIANT WellFormed
INVARIANT Laws
CHECK_DEADLOCK FALSE
