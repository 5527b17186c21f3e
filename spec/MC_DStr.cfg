SPECIFICATION Spec
CONSTANTS Inline = 2
 MinApp = 6
 Shrink = 10
 MaxLen = 5
 MaxOps = 5
INVARIANTS Safe Holds Released Fits NoLeak NotStatic
VIEW View
CHECK_DEADLOCK FALSE
