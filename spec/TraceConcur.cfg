SPECIFICATION Spec
INVARIANT Ended
CHECK_DEADLOCK FALSE
