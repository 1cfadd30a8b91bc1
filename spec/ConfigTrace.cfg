SPECIFICATION CSpec
CONSTANT Depth = 0
INVARIANT CReport
CHECK_DEADLOCK FALSE
