INIT Init
NEXT Next
INVARIANT Separately Determined Reachable Shown Answers Writes
CHECK_DEADLOCK FALSE
