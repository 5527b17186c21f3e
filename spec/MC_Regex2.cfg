SPECIFICATION Spec
CONSTANTS PLen = 4
 TLen = 3
 Symbols <- Sym2
 Letters <- Ab
INVARIANTS Sound Complete Wider Malformed Emit
CHECK_DEADLOCK FALSE
