CONSTANTS B = 3
          Most = 5
          Vals = {1, 2}
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
