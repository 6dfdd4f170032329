INIT Init
NEXT Next
INVARIANT Defaults Parsed Determined
CHECK_DEADLOCK FALSE
