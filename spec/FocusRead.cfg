SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Trees = {1, 2, 3, 4, 5, 6, 7, 8}
  Mutable = FALSE
  Depth = 2
  Emit = TRUE
INVARIANTS Right Shown
VIEW View
CHECK_DEADLOCK FALSE
