\* thorough
SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Starts = {0, 3, 9, 17, 30, 45}
  MaxElems = 70
  MaxDepth = 2
  Kinds <- All
  Emit = TRUE
  Some = FALSE
INVARIANTS Right Shown
VIEW View
CHECK_DEADLOCK FALSE
