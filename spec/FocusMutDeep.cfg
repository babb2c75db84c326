SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Trees = {3, 5, 6, 7, 8}
  Mutable = TRUE
  Depth = 2
  Emit = TRUE
INVARIANTS Right Shown
VIEW View
CHECK_DEADLOCK FALSE
