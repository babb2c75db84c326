SPECIFICATION Spec
CONSTANT W = 8
INVARIANT NoBad
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
