SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Trees = {2, 4}
  Mutable = TRUE
  Depth = 2
  Emit = TRUE
INVARIANTS Right Shown
VIEW View
CHECK_DEADLOCK FALSE
