INIT Init
NEXT Next
INVARIANT Fixed Language IsDefault Accepts
CHECK_DEADLOCK FALSE
