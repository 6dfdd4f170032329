INIT Init
NEXT Next
INVARIANT Pieces Whole
CHECK_DEADLOCK FALSE
