\* every constructor
SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Starts <- Upto400
  MaxElems = 1000
  MaxDepth = 0
  Kinds <- All
  Emit = TRUE
  Some = FALSE
INVARIANTS Right Shown
CHECK_DEADLOCK FALSE
