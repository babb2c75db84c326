SPECIFICATION Spec
CONSTANTS
  Wide = 4
  MaxElems = 330
  Steps = 24
INVARIANTS Sane Shown
CHECK_DEADLOCK FALSE
