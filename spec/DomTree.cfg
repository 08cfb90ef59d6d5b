SPECIFICATION Spec
INVARIANT Told
CHECK_DEADLOCK FALSE
