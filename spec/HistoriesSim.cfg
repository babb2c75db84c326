SPECIFICATION Spec
CONSTANTS
  Lens = {2, 6, 13, 22, 40}
  Depth = 6
  Handles = 3
  Emit = TRUE
INVARIANTS Types Known Shown
CHECK_DEADLOCK FALSE
