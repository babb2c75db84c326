SPECIFICATION Spec
CONSTANTS
  Lens = {1, 4, 9, 22, 45}
  Depth = 2
  Handles = 3
  Emit = TRUE
INVARIANTS Types Known Shown
PROPERTY Apart
CHECK_DEADLOCK FALSE
