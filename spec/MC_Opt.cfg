INIT Init
NEXT Next
INVARIANT WriteNone WriteSome Shapes Preference NonePreferred SomeIsPlain
CHECK_DEADLOCK FALSE
