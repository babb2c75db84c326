SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2, 3, 4, 5, 6, 7, 9, 13, 22}
  Emit = TRUE
VIEW View
INVARIANTS Once Middle Whole NoneLost Landed Kept Types
PROPERTY Fused
CHECK_DEADLOCK FALSE
