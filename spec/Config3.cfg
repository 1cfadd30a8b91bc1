SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Rules Emit
CHECK_DEADLOCK FALSE
