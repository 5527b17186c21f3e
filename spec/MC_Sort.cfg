SPECIFICATION Spec
CONSTANTS MaxLen = 6
 Keys = {1, 2, 3}
INVARIANT Sorts
CHECK_DEADLOCK FALSE
