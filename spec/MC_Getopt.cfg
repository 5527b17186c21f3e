SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS Shuffled InOrder Left Values Emit
PROPERTIES Progress
CHECK_DEADLOCK FALSE
