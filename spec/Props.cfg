INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Check
INVARIANT Inv_Structure
INVARIANT Inv_Retry
INVARIANT Inv_Best
INVARIANT Inv_Clean
INVARIANT Inv_NoJs
INVARIANT Inv_Classes
INVARIANT Inv_Selected
INVARIANT Inv_Hidden
INVARIANT Inv_Players
