SPECIFICATION Spec
CONSTANTS
  MaxLen = 12
  Most = 2000000000
  Emit = TRUE
INVARIANTS Chooses Took Moved TypeOK
CHECK_DEADLOCK FALSE
