SPECIFICATION TSpec
CONSTANTS M = 1
 N = 1
 Ids = {1}
INVARIANT TReport
CHECK_DEADLOCK FALSE
