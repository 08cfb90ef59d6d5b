SPECIFICATION Spec
INVARIANTS Inv_Status Inv_End Told
CHECK_DEADLOCK FALSE
