\* long random histories of taller trees
SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Starts = {0, 40, 90, 200}
  MaxElems = 330
  MaxDepth = 40
  Kinds <- All
  Emit = FALSE
  Some = TRUE
INVARIANTS Right ShownSome
CHECK_DEADLOCK FALSE
