\* the same, many joins in a row
SPECIFICATION Spec
CONSTANTS
  Wide = 4
  Starts = {2, 6, 40}
  MaxElems = 300
  MaxDepth = 60
  Kinds = {10}
  Emit = FALSE
  Some = TRUE
INVARIANTS Right ShownSome
CHECK_DEADLOCK FALSE
