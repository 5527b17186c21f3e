SPECIFICATION Spec
CONSTANT Max0 = 2
INVARIANTS Described Bounds Room
CHECK_DEADLOCK FALSE
