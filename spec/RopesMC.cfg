SPECIFICATION Spec
CONSTANTS MaxLen = 3
Ids = {1, 2, 4}
INVARIANTS Unary Binary
CHECK_DEADLOCK FALSE
