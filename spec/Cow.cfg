SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Leaves = 2
 Width = 2
 Budget = 2
 Switches = 0
 Objects = 10
 Fine = TRUE
 Emit = FALSE
 Rule = "sound"
INVARIANTS Isolated Counted Safe Kept Exclusive
VIEW Seen
CHECK_DEADLOCK FALSE
