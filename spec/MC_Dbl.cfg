SPECIFICATION Spec
CONSTANT Short = 4
INVARIANTS Same Small
CHECK_DEADLOCK FALSE
