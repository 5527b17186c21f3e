SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
 MaxOps = 7
 Hash <- Mod
INVARIANTS SameMap InPlace Found SameItr
VIEW View
CHECK_DEADLOCK FALSE
