INIT Init
NEXT Next
INVARIANT Written1 Declarative Laws ReadBack
CHECK_DEADLOCK FALSE
