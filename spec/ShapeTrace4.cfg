SPECIFICATION Spec
CONSTANT W = 4
INVARIANT NoBad
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
