SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Trees = {4, 7, 8, 9, 10, 11}
  Mutable = FALSE
  Depth = 3
  Emit = TRUE
INVARIANTS Right Shown
VIEW View
CHECK_DEADLOCK FALSE
