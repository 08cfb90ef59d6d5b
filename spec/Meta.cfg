SPECIFICATION Spec
INVARIANTS Inv_Ld Inv_Title Inv_Short Told
CHECK_DEADLOCK FALSE
