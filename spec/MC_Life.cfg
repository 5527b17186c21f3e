SPECIFICATION Spec
CONSTANTS MaxEnt = 4
 MaxWork = 2
INVARIANTS Once Whole Deprecated Valid NullAgrees Failing
CHECK_DEADLOCK FALSE
