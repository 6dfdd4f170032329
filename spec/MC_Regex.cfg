INIT Init
NEXT Next
INVARIANT Denotation Preference Captures Reported AcceptedIsReported
CHECK_DEADLOCK FALSE
