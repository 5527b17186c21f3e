SPECIFICATION Spec
CONSTANT MaxEnt = 2
INVARIANTS Balanced AllNames InTableOrder OneLineEach Emit
CHECK_DEADLOCK FALSE
