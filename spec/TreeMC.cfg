\* quick
SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Starts = {0, 6, 22}
  MaxElems = 46
  MaxDepth = 2
  Kinds <- All
  Emit = TRUE
  Some = FALSE
INVARIANTS Right Shown
VIEW View
CHECK_DEADLOCK FALSE
