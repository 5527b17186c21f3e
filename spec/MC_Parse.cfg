SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Good SameMeaning InOrder ErrorsKept Again NeverNext Protocol Emit
PROPERTIES Progress ErrorsStable
CHECK_DEADLOCK FALSE
