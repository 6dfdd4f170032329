INIT Init
NEXT Next
INVARIANT Splits NeverEmpty Appends Back InField
CHECK_DEADLOCK FALSE
