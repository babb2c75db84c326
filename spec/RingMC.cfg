SPECIFICATION Spec
CONSTANTS
  W = 4
  Emit = TRUE
VIEW Where
INVARIANTS Queues Popped Copied Decanted Pairs Views Shown
CHECK_DEADLOCK FALSE
