INIT Init
NEXT Next
INVARIANT Pure Written
