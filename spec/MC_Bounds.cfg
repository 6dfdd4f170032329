INIT Init2
NEXT Next2
INVARIANT HasIsApplies Exact Compile0 Sound OwnList DotsNeutral FollowsDisplay Monotone
CHECK_DEADLOCK FALSE
