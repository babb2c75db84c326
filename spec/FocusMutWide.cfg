SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Trees = {1, 3, 5, 6, 7, 8, 9}
  Mutable = TRUE
  Depth = 1
  Emit = TRUE
INVARIANTS Right Shown
VIEW View
CHECK_DEADLOCK FALSE
