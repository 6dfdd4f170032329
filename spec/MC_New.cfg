INIT Init
NEXT Next
INVARIANT Through Messages InOrder
CHECK_DEADLOCK FALSE
