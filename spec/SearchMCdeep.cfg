SPECIFICATION Spec
CONSTANTS
  Most = 17
  Around = {0, 2, 5}
  Emit = TRUE
INVARIANTS InWindow Answer Shown
PROPERTY Ends
CHECK_DEADLOCK FALSE
