SPECIFICATION Spec
CONSTANTS FLen = 7
 WLen = 7
INVARIANTS Files Wraps Emit
CHECK_DEADLOCK FALSE
