SPECIFICATION Spec
INVARIANTS Inv_Sum Told
CHECK_DEADLOCK FALSE
