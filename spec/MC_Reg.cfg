SPECIFICATION Spec
CONSTANTS Names3 = {1, 2}
 MaxOps = 4
INVARIANTS Latest Handler Emit
CHECK_DEADLOCK FALSE
