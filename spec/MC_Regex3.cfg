SPECIFICATION Spec
CONSTANTS PLen = 4
 TLen = 3
 Symbols <- Sym3
 Letters <- Aab
INVARIANTS Sound Complete Wider Malformed Emit
CHECK_DEADLOCK FALSE
