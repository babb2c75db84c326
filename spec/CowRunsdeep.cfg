SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Leaves = 2
 Width = 2
 Budget = 2
 Switches = 2
 Objects = 10
 Fine = FALSE
 Emit = TRUE
 Rule = "sound"
INVARIANTS Isolated Shown
CHECK_DEADLOCK FALSE
