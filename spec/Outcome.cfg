SPECIFICATION Spec
INVARIANTS Inv_Empty Told
CHECK_DEADLOCK FALSE
