SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Trees = {9, 10, 11}
  Mutable = TRUE
  Depth = 1
  Emit = TRUE
INVARIANTS Right Shown
VIEW View
CHECK_DEADLOCK FALSE
