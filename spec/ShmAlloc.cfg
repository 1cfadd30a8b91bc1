SPECIFICATION Spec
CONSTANTS M = 4
 N = 2
 Ids = {1, 2, 3}
INVARIANTS Inv Reusable GapsAgree
PROPERTY Stable
CHECK_DEADLOCK FALSE
