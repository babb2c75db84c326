SPECIFICATION Spec
CONSTANTS
  Keys = 4
  MaxLen = 6
  Emit = TRUE
INVARIANTS Permuted Apart Placed Bounded Shown
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
