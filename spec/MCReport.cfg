INIT Init
NEXT Step1
INVARIANT Agrees
CHECK_DEADLOCK FALSE
