INIT WInit
NEXT WNext
INVARIANT Prefix Reported AsSpecified
PROPERTY NoMore
CHECK_DEADLOCK FALSE
