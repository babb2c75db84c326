SPECIFICATION TraceSpec
INVARIANTS NoBad Types
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
