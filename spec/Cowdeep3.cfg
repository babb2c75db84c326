SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Leaves = 2
 Width = 2
 Budget = 1
 Switches = 0
 Objects = 18
 Fine = TRUE
 Emit = FALSE
 Rule = "sound"
INVARIANTS Isolated Counted Safe Kept Exclusive
VIEW Seen
CHECK_DEADLOCK FALSE
