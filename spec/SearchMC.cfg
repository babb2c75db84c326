SPECIFICATION Spec
CONSTANTS
  Most = 8
  Around = {0, 1, 3}
  Emit = TRUE
INVARIANTS InWindow Answer Shown
PROPERTY Ends
CHECK_DEADLOCK FALSE
