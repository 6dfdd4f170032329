INIT Init
NEXT Next
INVARIANT Reported Accepted Written2 Confined
CHECK_DEADLOCK FALSE
