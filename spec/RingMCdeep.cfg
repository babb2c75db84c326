SPECIFICATION Spec
CONSTANTS
  W = 8
  Emit = TRUE
VIEW Where
INVARIANTS Queues Popped Copied Decanted Pairs Views Shown
CHECK_DEADLOCK FALSE
