SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Leaves = 2
 Width = 2
 Budget = 1
 Switches = 3
 Objects = 10
 Fine = FALSE
 Emit = TRUE
 Rule = "sound"
INVARIANTS Isolated Counted Safe Kept Exclusive Shown
CHECK_DEADLOCK FALSE
