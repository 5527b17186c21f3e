SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS HandedOut Empty Flags Messages Choice Emit
CHECK_DEADLOCK FALSE
