INIT Init
NEXT Next
INVARIANT Denotation Preference Own Written
CHECK_DEADLOCK FALSE
