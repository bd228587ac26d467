INIT Init
NEXT Next
INVARIANT Exclusion
CHECK_DEADLOCK FALSE
