INIT Init
NEXT Next
INVARIANT SameAccepted SameParse SameText Delimited
CHECK_DEADLOCK FALSE
