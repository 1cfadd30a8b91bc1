SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Rules Emit
CHECK_DEADLOCK FALSE
