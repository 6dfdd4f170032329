SPECIFICATION Spec
INVARIANT Pure Agreed Waits
PROPERTY Once Ends
