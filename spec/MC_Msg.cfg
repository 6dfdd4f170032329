INIT Init
NEXT Next
INVARIANT Blames EnumSaysNothing
CHECK_DEADLOCK FALSE
