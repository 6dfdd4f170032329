INIT Init
NEXT Next
INVARIANT SplitIsShortest Conversions
CHECK_DEADLOCK FALSE
