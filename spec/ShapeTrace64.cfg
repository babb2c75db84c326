SPECIFICATION Spec
CONSTANT W = 64
INVARIANT NoBad
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
