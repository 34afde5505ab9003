INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Max = 3
CHECK_DEADLOCK FALSE
