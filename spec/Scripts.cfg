INIT Init
NEXT Next
CONSTANT MaxLen = 3
CHECK_DEADLOCK FALSE
