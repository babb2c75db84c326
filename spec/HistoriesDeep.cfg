SPECIFICATION Spec
CONSTANTS
  Lens = {9, 22}
  Depth = 3
  Handles = 3
  Emit = TRUE
INVARIANTS Types Known Shown
PROPERTY Apart
CHECK_DEADLOCK FALSE
