SPECIFICATION Spec
INVARIANTS Shape Texts Told
CHECK_DEADLOCK FALSE
