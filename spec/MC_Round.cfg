INIT Init
NEXT Next
INVARIANT Sound Reread Distinct CutOnce
CHECK_DEADLOCK FALSE
