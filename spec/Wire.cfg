SPECIFICATION Spec
CONSTANTS T = 3
 Blocks = {1, 2, 3, 4, 13}
INVARIANTS Unchanged NothingLeft Emit
CHECK_DEADLOCK FALSE
