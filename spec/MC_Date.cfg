SPECIFICATION Spec
CONSTANT K = 2
INVARIANTS RoundTrip NoMore
CHECK_DEADLOCK FALSE
