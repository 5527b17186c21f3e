SPECIFICATION Spec
CONSTANT Short = 4
INVARIANTS Exact Shape
CHECK_DEADLOCK FALSE
