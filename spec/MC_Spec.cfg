INIT Init
NEXT Next
INVARIANT Anywhere Padding Precision Integers_ Fractions
CHECK_DEADLOCK FALSE
