INIT Init
NEXT Next
INVARIANT Selection NeverIgnored PlainError
CHECK_DEADLOCK FALSE
