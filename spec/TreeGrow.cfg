\* trees that only ever grow, by joins with short ones
SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Starts = {2, 6}
  MaxElems = 150
  MaxDepth = 4
  Kinds <- Growing
  Emit = TRUE
  Some = FALSE
INVARIANTS Right Shown
VIEW View
CHECK_DEADLOCK FALSE
