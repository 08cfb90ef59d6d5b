SPECIFICATION Spec
INVARIANTS Told Done
CHECK_DEADLOCK FALSE
