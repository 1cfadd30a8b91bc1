SPECIFICATION Spec
CONSTANTS B = 4
 MaxLen = 40
 MaxThreads = 4
INVARIANTS InBounds Once Complete
CHECK_DEADLOCK FALSE
