CONSTANT B = 268435456
SPECIFICATION Spec
INVARIANT NoBad
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
