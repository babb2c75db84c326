SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2, 3, 5, 8, 13}
  Emit = TRUE
VIEW View
INVARIANTS Once Middle Whole NoneLost Landed Kept Types
PROPERTY Fused
CHECK_DEADLOCK FALSE
