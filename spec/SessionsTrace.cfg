SPECIFICATION TSpec
INVARIANTS Inv_Shared Inv_Calls Told
CHECK_DEADLOCK FALSE
