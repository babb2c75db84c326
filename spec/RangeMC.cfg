SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Most = 2000000000
  Emit = TRUE
INVARIANTS Chooses Took Moved TypeOK
CHECK_DEADLOCK FALSE
