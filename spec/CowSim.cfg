SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Leaves = 2
 Width = 2
 Budget = 2
 Switches = 9
 Objects = 24
 Fine = FALSE
 Emit = TRUE
 Rule = "sound"
INVARIANTS Isolated Shown
CHECK_DEADLOCK FALSE
